"""Histories of operations on linear expressions."""
import random
from fractions import Fraction

from core import attempt, num, tlc_cases, unnum

TRACE = "LinAlgTrace"
KEYS = [["c", "x", 0, -1], ["c", "x", 1, -1], ["c", "x", 0, 0], ["d", "x", 0, -1], ["c", "y", -1, 1], ["d", "z", -1, -1]]

# keys whose parts can be joined into the same text
ODD = [["a", "b_x", 0, 0], ["a_b", "x", 0, 0], ["c", "x", 1, 11], ["c", "x", 11, 1], ["c", "x1", 1, 1], ["c", "x", 11, -1]]
TINY = 1 / 16384


def new(r, close=False, keys=KEYS):
    ks = r.sample(keys, r.choice([0, 0, 1, 2, 3]))
    return {"op": "new", "a": 1, "b": 1, "inplace": False,
            "f": {"c": num(r.choice([0, TINY, 1 + TINY, 1 - TINY, 1, 2, -TINY, TINY - 1]) if close
                             else r.choice([0, 0, 1, 2, -1, 4, 0.5])),
                  "m": [{"y": k, "v": num(r.choice([TINY, 1 + TINY, -TINY, 1, 0]) if close
                                          else r.choice([0, 1, -1, 2, -2, 3, 0.5]))} for k in ks]}}


def random_hist(r, close=False, ops=("add", "sub", "mul", "div", "neg", "add", "sub")):
    """close: numbers next to zero, one and minus one."""
    most = (60000, 16384) if close else (10**6, 64)
    keys = KEYS if r.random() < 0.8 else ODD
    hist = [new(r, close, keys) for _ in range(r.choice([2, 3, 4]))]
    heap = [sim_new(x) for x in hist]
    for _ in range(r.choice([3, 6, 10, 14])):
        if r.random() < 0.1:
            s = new(r, close, keys)
            hist.append(s)
            heap.append(sim_new(s))
            continue
        n = len(heap)
        s = {"op": r.choice(ops),
             "a": r.randrange(n) + 1, "b": r.randrange(n) + 1, "inplace": r.random() < 0.45,
             "f": {"c": num(0), "m": []}}
        if s["op"] == "neg":
            s["inplace"], s["b"] = False, s["a"]
        v = sim(s["op"], heap[s["a"] - 1], heap[s["b"] - 1])
        if v is not None:
            if any(abs(x.numerator) > most[0] or x.denominator > most[1] for x in v.values()):
                continue
            if close and s["op"] in ("mul", "div") and not within(heap[s["a"] - 1], heap[s["b"] - 1]):
                continue
            # exactly representable in binary
            if any(x.denominator & (x.denominator - 1) for x in v.values()):
                continue
            if s["inplace"]:
                heap[s["a"] - 1] = v
            else:
                heap.append(v)
        hist.append(s)
    return hist


def within(a, b):
    """The products of all the parts fit in the specification's integers."""
    big = lambda e: max(max(abs(x.numerator), x.denominator) for x in e.values())
    return big(a) * big(b) < 2 * 10**9


def sim_new(s):
    d = {"": Fraction(*s["f"]["c"])}
    for t in s["f"]["m"]:
        d[str(t["y"])] = Fraction(*t["v"])
    return {k: v for k, v in d.items() if v or k == ""}


def sim(op, a, b):
    """Only used to keep numbers small."""
    trim = lambda d: {k: v for k, v in d.items() if v or k == ""}
    if op in ("add", "sub"):
        sg = 1 if op == "add" else -1
        return trim({k: a.get(k, 0) + sg * b.get(k, 0) for k in set(a) | set(b)})
    if op == "neg":
        return {k: -v for k, v in a.items()}
    if op == "mul":
        if len(a) == 1:
            return trim({k: v * a[""] for k, v in b.items()})
        if len(b) == 1:
            return trim({k: v * b[""] for k, v in a.items()})
        return None
    if len(b) > 1 or b[""] == 0:
        return None
    return trim({k: v / b[""] for k, v in a.items()})


def gen(tier, seed):
    cases, r0 = tlc_cases("LinAlgGen", {"MAXOPS": 2}, heap="8g")
    r = random.Random(seed)
    cases = [c for c in cases if len(c) == 5 and all(ok(c))]
    if tier == "quick":
        cases = r.sample(cases, min(len(cases), 4000))
    inputs = [{"hist": c} for c in cases]
    for _ in range(2500 if tier == "quick" else 30000):
        inputs.append({"hist": random_hist(r)})
    for _ in range(800 if tier == "quick" else 10000):
        inputs.append({"hist": random_hist(r, True)})
    # in other units: sums and differences do not depend on them
    for _ in range(500 if tier == "quick" else 6000):
        inputs.append({"hist": random_hist(r, False, ("add", "sub", "neg", "add")),
                       "scale": r.choice([-43, -36, -30, -20, 20, 40])})
    return inputs, {"gen_states": r0.distinct, "gen_transitions": r0.states}


def ok(c):
    # thirds are not exact in floating point: equality of the real objects is exact
    yield not any(s["op"] == "div" for s in c)


def run(inp):
    from andromede.simulation.linear_expression import LinearExpression, Term

    heap, steps = [], []
    opt = lambda x: None if x == -1 else x
    nopt = lambda x: -1 if x is None else x

    unit = 2.0 ** inp.get("scale", 0)

    def proj(e):
        return {"c": num(e.constant / unit),
                "m": [{"y": [t.component_id, t.variable_name, nopt(t.time_index), nopt(t.scenario_index)],
                       "v": num(t.coefficient / unit)} for t in e.terms.values()]}

    def step(s):
        if s["op"] == "new":
            heap.append(LinearExpression(
                [Term(unnum(t["v"]) * unit, t["y"][0], t["y"][1], opt(t["y"][2]), opt(t["y"][3])) for t in s["f"]["m"]],
                unnum(s["f"]["c"]) * unit))
            return
        i, b = s["a"] - 1, heap[s["b"] - 1]
        a = heap[i]
        op = s["op"]
        if s["inplace"]:
            if op == "add":
                a += b
            elif op == "sub":
                a -= b
            elif op == "mul":
                a *= b
            elif op == "div":
                a /= b
            heap[i] = a
        else:
            heap.append({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                         "div": lambda: a / b, "neg": lambda: -a}[op]())

    for s in inp["hist"]:
        r = attempt(step, s)
        steps.append({"r": r["k"], "h": [proj(e) for e in heap]})
    return {"k": "ok", "steps": steps,
            "eq": [[bool(a == b) for b in heap] for a in heap],
            "zero": [bool(a.is_zero()) for a in heap]}
