"""Result tables: histories of edits and comparisons; tables of solved problems."""
import random

from core import attempt, fine, num, tlc_cases, unnum
import suite_build as B
import systems as Y

TRACE = "OutputTrace"
VAL = [0, 1, 2, 4, 4.5, 5, 8, 9, -4]


HAIR = 1 / 2 ** 28


def value(r, mode=""):
    v = lambda: fine(r.choice([4, 4 + HAIR, 4 - HAIR]) if mode == "hair" else r.choice(VAL))
    k = r.choice("nnllm" + "mm")
    if k == "n":
        return {"k": "n", "v": v()}
    if k == "l":
        return {"k": "l", "v": [v() for _ in range(r.choice([1, 2, 3]))]}
    S, T = r.choice([1, 2]), r.choice([1, 2, 3])
    return {"k": "m", "v": [[v() for _ in range(r.choice([1, 2]) if mode == "ragged" else T)] for _ in range(S)]}


def perturb(r, x, mode=""):
    def p(v):
        if mode == "hair":
            return fine(r.choice([4, 4 + HAIR, 4 - HAIR])) if r.random() < 0.3 else v
        return num(unnum(v) + r.choice([0, 0, 0.5, -0.5, 1, -1])) if r.random() < 0.5 else v
    if mode == "ragged" and x["k"] == "m" and len(x["v"]) > 1 and r.random() < 0.6:
        # the first row gets longer or shorter
        first = x["v"][0]
        return {"k": "m", "v": [first[:-1] if len(first) > 1 else first + [[1, 1]]] + x["v"][1:]}
    if x["k"] == "n":
        return {"k": "n", "v": p(x["v"])}
    if x["k"] == "l":
        return {"k": "l", "v": [p(v) for v in x["v"]]}
    return {"k": "m", "v": [[p(v) for v in row] for row in x["v"]]}


def tables(r, mode=""):
    """mode: "ragged", rows of different lengths, which cannot be read back; "hair", values next to each other."""
    blank = {"n": 1, "m": 1, "c": "", "v": "", "c2": "", "v2": "", "x": {"k": "n", "v": [0, 1]}, "b": False, "rel": [0, 1], "abs": [0, 1]}
    ops = []
    past = []
    heap = r.choice([2, 2, 3])

    def op(**k):
        ops.append(dict(blank, **k))

    def compare():
        n, m = r.randrange(heap) + 1, r.randrange(heap) + 1
        if r.random() < 0.3:
            c, v = r.choice("AB"), r.choice("xy")
            same = r.random() < 0.6
            rel, ab = (0, 0) if mode == "hair" else r.choice([(0, 0), (0, 1), (0.25, 0)])
            op(op=r.choice(["nearc", "nearv"]), n=n, m=m, c=c, v=v, c2=c if same else r.choice("AB"),
               v2=v if same else r.choice("xy"), rel=num(rel), abs=num(ab))
        elif r.random() < 0.4 or mode == "hair":
            op(op="eq", n=n, m=m)
        else:
            rel, ab = r.choice([(0, 0.5), (0, 1), (0.125, 0), (0.25, 0), (0.125, 1), (0, 0), (0.5, 0.5)])
            op(op="near", n=n, m=m, rel=num(rel), abs=num(ab))

    for _ in range(r.choice([3, 5, 8])):
        c, v = r.choice("AB"), r.choice("xy")
        n = r.randrange(heap) + 1
        x = r.random()
        if x < 0.6:
            val = value(r, mode) if not past or r.random() < 0.4 else r.choice(past)
            past.append(val)
            for j in range(1, heap + 1):          # mostly the same everywhere
                if r.random() < 0.85:
                    op(op="set", n=j, c=c, v=v, x=val if r.random() < 0.75 else perturb(r, val, mode))
        elif x < 0.7:
            op(op="ignv", n=n, c=c, v=v, b=r.random() < 0.8)
        elif x < 0.78:
            op(op="ignc", n=n, c=c, b=r.random() < 0.8)
        elif x < 0.9 and mode != "ragged":
            op(op="get", n=n, c=c, v=v)
        if r.random() < 0.4:
            compare()
    for _ in range(3):
        compare()
    for c in "AB" if mode != "ragged" else "":
        for v in "xy":
            op(op="get", n=1, c=c, v=v)
    if r.random() < 0.2:
        # names that can be joined into the same name, or differ by case
        to = r.choice([{"A": "a", "B": "a_b", "x": "x", "y": "b_x"}, {"A": "a", "B": "A", "x": "x", "y": "X"}])
        for o in ops:
            o.update({k: to.get(o[k], o[k]) for k in ("c", "v", "c2", "v2")})
    return {"kind": "tables", "heap": heap, "ops": ops}


def benders(r):
    def one():
        return {"cost": num(r.choice([8, 8, 8.5, 9])),
                "cands": {c: num(r.choice([4, 4, 4, 4.5, 5])) for c in r.sample(["i", "j"], r.choice([1, 2, 2]))}}
    a = one()
    b = one() if r.random() < 0.5 else {"cost": a["cost"], "cands": dict(a["cands"])}
    if r.random() < 0.3:
        b["cands"] = {c: perturb(r, {"k": "n", "v": v})["v"] for c, v in b["cands"].items()}
    rel, ab = r.choice([(0, 0.5), (0, 1), (0.125, 0), (0.25, 0), (0.0625, 0)])
    if r.random() < 0.2:
        rel = ab = 0
        a["cost"], b["cost"] = fine(4), fine(r.choice([4, 4 + HAIR]))
        b["cands"] = {c: fine(4 + r.choice([0, 0, HAIR])) for c in b["cands"]}
        a["cands"] = {c: fine(4) for c in a["cands"]}
    return {"kind": "benders", "a": a, "b": b, "rel": num(rel), "abs": num(ab)}


def gen(tier, seed):
    r = random.Random(seed * 13 + 11)
    k = 1 if tier == "quick" else 12
    cases, t = tlc_cases("OutputGen", {"MAXOPS": 3 if tier == "quick" else 4})
    q = {"n": 1, "m": 2, "c": "A", "v": "x", "x": {"k": "n", "v": [0, 1]}, "b": False, "rel": [0, 1], "abs": [0, 1]}
    ends = [dict(q, op="eq"), dict(q, op="eq", n=2, m=1), dict(q, op="near", abs=[1, 1]), dict(q, op="near", n=2, m=1, rel=[1, 4]),
            dict(q, op="get"), dict(q, op="get", n=2), dict(q, op="get", v="y"), dict(q, op="eq")]
    inputs = [{"kind": "tables", "heap": 2, "ops": c + ends} for c in r.sample(cases, min(len(cases), 2500 * k))]
    inputs += [tables(r, r.choice(["", "", "", "ragged", "hair"])) for _ in range(3500 * k)] + [benders(r) for _ in range(300 * k)]
    for _ in range(250 * k):
        nodes = r.choice([None, None, ["root", "leaf"]])
        sys = Y.random_system(r, B.H, 3, nodes)
        inputs.append({"kind": "problem", "sys": sys, "req": B.random_request(r, sys, nodes),
                       "zero": r.choice([[1, 1], [1, 1], [1, 2], [2, 3], [1, 3], [0, 1]]), "neg": r.random() < 0.3,
                       "unit": r.choice([0, 0, -33, -20])})
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def run(inp):
    from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution, OutputValues

    def enc(x):
        if isinstance(x, list):
            if any(isinstance(y, list) for y in x):
                return {"k": "m", "v": [[fine(z) for z in y] for y in x]}
            return {"k": "l", "v": [fine(y) for y in x]}
        return {"k": "n", "v": fine(x)}

    def dec(x):
        if x["k"] == "n":
            return unnum(x["v"])
        return [unnum(y) for y in x["v"]] if x["k"] == "l" else [[unnum(z) for z in y] for y in x["v"]]

    def tables_():
        heap = [OutputValues() for _ in range(inp["heap"])]
        outs = []
        for op in inp["ops"]:
            o = heap[op["n"] - 1]
            k = op["op"]
            if k == "set":
                o.component(op["c"]).var(op["v"]).value = dec(op["x"])
            elif k == "ignv":
                o.component(op["c"]).var(op["v"]).ignore = op["b"]
            elif k == "ignc":
                o.component(op["c"]).ignore = op["b"]
            elif k == "get":
                v = o.component(op["c"]).var(op["v"]).value
                outs.append({"k": "m", "v": []} if v == [] else enc(v))
                continue
            elif k in ("nearc", "nearv"):
                a, b = o.component(op["c"]), heap[op["m"] - 1].component(op["c2"])
                if k == "nearv":
                    a, b = a.var(op["v"]), b.var(op["v2"])
                rel, ab = unnum(op["rel"]), unnum(op["abs"])
                outs.append(a == b if rel == ab == 0 else a.is_close(b, rel_tol=rel, abs_tol=ab))
                continue
            elif k == "eq":
                outs.append(o == heap[op["m"] - 1])
                continue
            else:
                outs.append(o.is_close(heap[op["m"] - 1], rel_tol=unnum(op["rel"]), abs_tol=unnum(op["abs"])))
                continue
            outs.append("done")
        return outs

    def problem_():
        from andromede.simulation import TimeBlock, build_problem

        q = inp["req"]

        def build():
            return build_problem(Y.real_network(inp["sys"]), Y.real_database(inp["sys"]), TimeBlock(1, q["block"]), q["S"],
                                 build_strategy=B.strategy(q["strat"]), decision_tree_node=q["tree"],
                                 use_full_var_name=q["full"], solver_id="GLOP")

        pb = attempt(build)
        if pb["k"] == "err":
            return {"skip": True}
        pb = pb["v"]
        s = pb.solver
        unit = 2.0 ** inp["unit"]
        # a problem whose only solution is known: variable number j has the value j + 1, unless it is zero
        for j, v in enumerate(s.variables()):
            x = 0 if j % inp["zero"][1] >= inp["zero"][0] else (j + 1) * (-1 if inp["neg"] and j % 2 else 1)
            v.SetInteger(False)
            v.SetBounds(-s.infinity(), s.infinity())
            v.SetLb(x * unit)
            v.SetUb(x * unit)
        for c in s.constraints():
            c.SetBounds(-s.infinity(), s.infinity())
        if not s.variables() or s.Solve() != s.OPTIMAL:
            return {"skip": True}
        out = OutputValues(pb)

        def up(x):
            return [up(y) for y in x] if isinstance(x, list) else x / unit

        sys = inp["sys"]
        tab = {}
        for c in sys["comps"]:
            names = [n for n, v in sys["models"][c["model"]]["vars"].items() if keep(q["strat"], v["ctx"])]
            if names:
                tab[c["id"]] = {n: enc(up(out.component(c["id"]).var(n).value)) for n in names}
        return {"skip": False, "sol": [{"n": v.name(), "v": fine(v.solution_value() / unit)} for v in s.variables()], "out": tab}

    def benders_():
        mk = lambda x, K: K({"solution": {"overall_cost": unnum(x["cost"]),
                                          "values": {c: unnum(v) for c, v in x["cands"].items()}}})
        a, b = mk(inp["a"], BendersDecomposedSolution), mk(inp["b"], BendersMergedSolution)
        return [a == b, a.is_close(b, rel_tol=unnum(inp["rel"]), abs_tol=unnum(inp["abs"]))]

    return attempt({"tables": tables_, "problem": problem_, "benders": benders_}[inp["kind"]])


def keep(strat, ctx):
    return strat == "merged" or ctx == "COUPLING" or ctx == strat.upper()
