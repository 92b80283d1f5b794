"""Expressions built with Python operators; evaluation, copy, equality, printing."""
import random

from core import attempt, num, tlc_cases, unnum
import exprs as E

TRACE = "OpsTrace"
N3 = {"k": "num", "v": num(3)}


TIMES = ["NoTimeIndex()", "TimeShift(timeshift=0)", "TimeShift(timeshift=1)", "TimeStep(timestep=0)", "TimeStep(timestep=1)"]
SCENS = ["NoScenarioIndex()", "CurrentScenarioIndex()", "OneScenarioIndex(scenario=0)", "OneScenarioIndex(scenario=1)"]


def o(op, a=N3, b=N3, c=N3, n="", **w):
    return {"op": op, "a": a, "b": b, "c": c, "n": n, **w}


def ref(i):
    return {"k": "ref", "r": i}


def random_hist(r):
    hist = [o("var", n="x"), o("par", n="p"), o("var", n="y"), o("par", n="q")]
    if r.random() < 0.3:
        for f in r.choice([["flow"], ["flow", "angle"]]):
            hist.append(o("port", n=f))
            if r.random() < 0.5:
                hist.append(o("pagg", n=f))
    for _ in range(r.choice([0, 0, 1, 2, 3])):             # already attached to a component, or to a place
        k = r.choice(["cvar", "cpar", "cvar", "cpar", "pvar", "ppar"])
        hist.append(o(k, n=r.choice("xy") if k[1:] == "var" else r.choice("pq"),
                      w={"c": r.choice(["c1", "c2"]), "ti": r.choice(TIMES), "si": r.choice(SCENS)}))
    size = [1] * len(hist)
    arith_only = r.random() < 0.4
    twins, base = r.random() < 0.5, len(hist)
    for _ in range(r.choice([3, 5, 8])):
        n = len(hist)
        pick = lambda: r.choice([i for i in range(1, n + 1) if size[i - 1] < 25])
        numb = lambda: {"k": "num", "v": num(r.choice([0, 1, 2, 3, 0.5, 7]))}
        x = r.random()
        if twins and n > base and x < 0.4:
            # the same operation again, but for one detail
            i = r.randrange(base, n)
            if size[i] < 25:
                h = dict(hist[i])
                y = r.randrange(5)
                same = next(([q for q in g if q != h["op"]] for g in (["<=", ">=", "="], ["expec", "vari"], ["shift", "eval"], ["add", "sub"],
                                                                      ["mul", "div"]) if h["op"] in g), [])
                if y == 0 and same:
                    h["op"] = r.choice(same)
                elif y == 1 and h["a"]["k"] == "ref" and h["b"]["k"] == "ref":
                    h["a"], h["b"] = h["b"], h["a"]
                elif y == 2 and h["b"]["k"] == "num":
                    h["b"] = numb()
                elif y == 3 and h["a"]["k"] == "num":
                    h["a"] = numb()
                elif h["op"] == "tsum":
                    h["c"] = numb()
                elif h["op"] in ("<=", ">=", "="):
                    h["a"], h["b"] = (h["b"], h["a"]) if h["b"]["k"] == "ref" else (h["a"], numb())
                hist.append(h)
                size.append(size[i])
            continue
        sz = lambda z: size[z["r"] - 1] if z["k"] == "ref" else 1
        if x < 0.62:
            a, b = ref(pick()), ref(pick())
            y = r.random()
            if y < 0.2:
                a = numb()
            elif y < 0.4:
                b = numb()
            hist.append(o(r.choice(["add", "sub", "mul", "div", "add", "sub"]), a, b))
            size.append(sz(a) + sz(b))
        elif x < 0.72 or arith_only:
            a = ref(pick())
            hist.append(o("neg", a))
            size.append(sz(a) + 1)
        elif x < 0.78:
            a, b = ref(pick()), r.choice([ref(pick()), numb()])
            hist.append(o(r.choice(["<=", ">=", "="]), a, b))
            size.append(sz(a) + sz(b))
        elif x < 0.83:
            a, b, c = ref(pick()), ref(pick()), ref(pick())
            hist.append(o("sum3", a, b, c))
            size.append(sz(a) + sz(b) + sz(c))
        elif x < 0.9:
            a, b = ref(pick()), r.choice([ref(pick()), numb()])
            hist.append(o(r.choice(["shift", "eval"]), a, b))
            size.append(sz(a) + sz(b))
        elif x < 0.94:
            a, b, c = ref(pick()), r.choice([ref(pick()), numb()]), numb()
            hist.append(o("tsum", a, b, c))
            size.append(sz(a) + sz(b) + 1)
        else:
            a = ref(pick())
            hist.append(o(r.choice(["asum", "asum", "expec", "expec", "vari"]), a))
            size.append(sz(a) + 1)
    return hist


def heap_of(hist):
    heap = []
    for h in hist:
        a, b, c = ({"k": "lit", "v": x["v"]} if x["k"] == "num" else heap[x["r"] - 1]
                   for x in (h["a"], h["b"], h["c"]))
        heap.append({"neg": lambda: a, "add": lambda: E.add(a, b), "sub": lambda: E.add(a, b),
                     "mul": lambda: E.mul(a, b), "div": lambda: E.div(a, b),
                     "sum3": lambda: E.add(a, b, c)}.get(h["op"], lambda: E.par("x"))())
    return heap


def gen(tier, seed):
    cases, r0 = tlc_cases("OpsGen", {"MAXOPS": 2 if tier == "quick" else 3}, heap="8g")
    r = random.Random(seed)
    if tier == "quick":
        cases = [c for c in cases if len(c) == 4]
    else:
        cases = r.sample(cases, min(len(cases), 40000))
    vals = {"vars": {"x": num(2), "y": num(0.5)}, "pars": {"p": num(-3), "q": num(4)}}
    tol = lambda: dict(zip(("rel", "abs"), r.choice([(num(0), num(1)), (num(0.5), num(0)), (num(0), num(0)), (num(0.25), num(0.5)), (num(0), num(0.5)), (num(0.125), num(0)),
                                                         (num(0), num(4)), (num(-1), num(1)), (num(1), num(-1)), (num(0), num(-0.5)), (num(-0.5), num(0))])))
    inputs = [dict(tol(), hist=c, vals=vals) for c in cases]
    for _ in range(2500 if tier == "quick" else 20000):
        v = {"vars": {k: num(r.choice([0, 1, -1, 2, 3, 0.5])) for k in "xy"},
             "pars": {k: num(r.choice([0, 1, -2, 3, 0.5, 5])) for k in "pq"}}
        if r.random() < 0.1:
            del v["vars"]["y"]
        if r.random() < 0.1:                    # the value of a parameter is not looked up among the variables
            v["vars"]["q"] = v["pars"].pop("q")
        h = random_hist(r)
        if all(E.fits(e, (5, 2)) for e in heap_of(h)):
            inputs.append(dict(tol(), hist=h, vals=v))
    return inputs, {"gen_states": r0.distinct, "gen_transitions": r0.states}


def run(inp):
    from andromede.expression import expression as X
    from andromede.expression.context_adder import add_component_context
    from andromede.expression.copy import copy_expression
    from andromede.expression.degree import compute_degree
    from andromede.expression.equality import expressions_equal
    from andromede.expression.evaluate import EvaluationContext, ValueProvider, evaluate
    from andromede.expression.evaluate_parameters import ParameterValueProvider, resolve_parameters
    from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
    from andromede.expression.print import print_expr

    vv = {k: unnum(v) for k, v in inp["vals"]["vars"].items()}
    pv = {k: unnum(v) for k, v in inp["vals"]["pars"].items()}
    heap = []

    def build():
        for h in inp["hist"]:
            def ref(x):
                if x["k"] == "num":
                    v = unnum(x["v"])
                    return int(v) if v == int(v) else v
                return heap[x["r"] - 1]
            op, a, b, c = h["op"], ref(h["a"]), ref(h["b"]), ref(h["c"])
            if op == "var":
                e = X.var(h["n"])
            elif op == "par":
                e = X.param(h["n"])
            elif op == "port":
                e = X.port_field("port", h["n"])
            elif op == "pagg":
                e = X.port_field("port", h["n"]).sum_connections()
            elif op == "cvar":
                e = X.comp_var(h["w"]["c"], h["n"])
            elif op == "cpar":
                e = X.comp_param(h["w"]["c"], h["n"])
            elif op in ("pvar", "ppar"):
                f = X.problem_var if op == "pvar" else X.problem_param
                e = f(h["w"]["c"], h["n"], eval(h["w"]["ti"], vars(X)), eval(h["w"]["si"], vars(X)))
            elif op == "vari":
                e = a.variance()
            elif op == "neg":
                e = -a
            elif op == "add":
                e = a + b
            elif op == "sub":
                e = a - b
            elif op == "mul":
                e = a * b
            elif op == "div":
                e = a / b
            elif op == "<=":
                e = a <= b
            elif op == ">=":
                e = a >= b
            elif op == "=":
                e = a == b
            elif op == "sum3":
                e = X.sum_expressions([a, b, c])
            elif op == "shift":
                e = a.shift(b)
            elif op == "eval":
                e = a.eval(b)
            elif op == "tsum":
                e = a.time_sum(b, c)
            elif op == "asum":
                e = a.time_sum()
            elif op == "expec":
                e = a.expec()
            heap.append(e)

    r = attempt(build)
    if r["k"] == "err":
        return r

    class Params(ParameterValueProvider):
        def get_parameter_value(self, name):
            return pv[name]

        def get_component_parameter_value(self, component_id, name):
            return inc(component_id, pv[name])

    class Both(ValueProvider):
        def get_variable_value(self, name):
            return vv[name]

        def get_parameter_value(self, name):
            return pv[name]

        def get_component_variable_value(self, component_id, name):
            return inc(component_id, vv[name])

        def get_component_parameter_value(self, component_id, name):
            return inc(component_id, pv[name])

    def inc(c, v):
        return {"c1": v, "c2": -v}[c]

    class Vals(ValueProvider):
        def get_variable_value(self, name):
            raise KeyError()

        get_parameter_value = get_variable_value

        def get_component_variable_value(self, component_id, name):
            assert component_id == "comp"
            return vv[name]

        def get_component_parameter_value(self, component_id, name):
            assert component_id == "comp"
            return pv[name]

    ids = ModelIdentifiers({"x", "y"}, {"p", "q"})
    out = []
    for e in heap:
        out.append({
            "e": {"k": "ok", "v": E.enc(e)},
            "copy": attempt(lambda: E.enc(copy_expression(e))),
            "res": attempt(lambda: E.enc(resolve_parameters(e, Params()))),
            "ctx": attempt(lambda: E.enc(add_component_context("comp", e))),
            "ev": attempt(lambda: num(evaluate(e, EvaluationContext(vv, pv)))),
            "ev2": attempt(lambda: num(evaluate(add_component_context("comp", e), Vals()))),
            "ev3": attempt(lambda: num(evaluate(e, Both()))),
            "deg": attempt(compute_degree, e),
            "print": attempt(lambda: E.enc(parse_expression(print_expr(e), ids))),
        })
    eq = [[bool(expressions_equal(a, b)) for b in heap] for a in heap]
    tol = {"abs_tol": unnum(inp["abs"]), "rel_tol": unnum(inp["rel"])}
    eqtol = attempt(lambda: [[bool(expressions_equal(a, b, **tol)) for b in heap] for a in heap])
    misuse = [["err" != attempt(f)["k"] for f in (lambda: e.time_sum(1, None), lambda: e.time_sum(None, 1), lambda: e + "2", lambda: "2" + e,
                                                  lambda: e * "2", lambda: e / None, lambda: e <= "2", lambda: e.shift("2"), lambda: e - [1])]
              + [attempt(e.sum_connections)["k"] == "ok"] for e in heap]
    texts = [print_expr(e) if isinstance(print_expr(e), str) else "" for e in heap]
    eqcopy = [bool(expressions_equal(a, copy_expression(a))) if h["op"] != "sum3" else True
              for a, h in zip(heap, inp["hist"])]
    if any(h["op"] == "sum3" for h in inp["hist"]):
        eqcopy = [True] * len(heap)
    return {"k": "ok", "heap": out, "eq": eq, "eqtol": eqtol, "misuse": misuse, "texts": texts, "eqcopy": eqcopy}
