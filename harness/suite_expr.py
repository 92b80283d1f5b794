"""Meaning, degree and indexation of expressions with component context."""
import random

from core import attempt, num, tlc_cases, unnum
import exprs as E

TRACE = "ExprTrace"


def gen_env():
    st = lambda t, s: {"t": t, "s": s}
    n = num
    return {"T": 3, "S": 2,
            "st": {"c": {"x": st(True, True), "y": st(False, False), "p": st(True, True),
                         "q": st(False, False)},
                   "d": {"z": st(True, False), "u": st(False, True)}},
            "val": {"c": {"p": [[n(1), n(2)], [n(3), n(5)], [n(7), n(-4)]], "q": [[n(2)]]},
                    "d": {"u": [[n(3), n(-1)]]}}}


def random_env(r):
    T, S = r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3])
    st, val = {}, {}
    vars_, pars, consts = [], [], []
    for c in ("a", "b"):
        st[c], val[c] = {}, {}
        for v in ("x", "y"):
            st[c][v] = {"t": r.random() < 0.7, "s": r.random() < 0.6}
            vars_.append(E.cvar(c, v))
        for p in ("p", "q"):
            st[c][p] = {"t": r.random() < 0.6, "s": r.random() < 0.5}
            val[c][p] = [[num(r.choice([0, 1, 2, 3, -1, -2, 5, 0.5, 7])) for _ in range(S)] for _ in range(T)]
            pars.append(E.cpar(c, p))
        st[c]["k"] = {"t": False, "s": False}
        val[c]["k"] = [[num(r.choice([0, 1, 2, 3, -1]))]]
        consts.append(E.cpar(c, "k"))
    return {"T": T, "S": S, "st": st, "val": val}, vars_, pars + consts, consts


def broken(r, g, vars_, pars):
    """Expressions at or beyond the border of the linear language."""
    x = r.randrange(9)
    a, b = r.choice(vars_), r.choice(vars_)
    if x == 0:
        return E.mul(g.lin(1), g.lin(1))
    if x == 1:
        return E.div(g.lin(1), g.lin(1))
    if x == 2:
        return E.div(g.lin(1), E.sub(r.choice(pars), r.choice(pars)))
    if x == 3:
        return E.shift(a, r.choice(pars))
    if x == 4:
        return E.shift(a, E.lit(0.5)) if r.random() < 0.5 else E.ev(a, E.div(E.lit(r.choice([3, 4])), E.lit(2)))
    if x == 5:
        return E.ev(E.ev(a, 1), 2) if r.random() < 0.5 else E.ev(E.asum(g.lin(1)), 0)
    if x == 6:
        l, q = r.choice([(b, E.lit(1)), (E.lit(1), b), (r.choice(pars), g.lin(1)), (g.lin(1), E.mul(a, b))])
        c = E.cmp_(l, q, r.choice(["<=", ">=", "="]))
        return c if r.random() < 0.5 else E.add(a, c)
    if x == 7:
        return {"k": "scen", "a": a, "op": "Variance"}
    return E.tsum(a, E.lit(-1), r.choice(pars))


def gen(tier, seed):
    inputs = []
    cases, r0 = tlc_cases("ExprGen", {"DEPTH": 2 if tier == "quick" else 3}, heap="8g")
    env = gen_env()
    rng = random.Random(seed)
    limit = 9500 if tier == "quick" else 60000
    if len(cases) > limit:
        small = [c for c in cases if size(c) <= 5]
        rest = [c for c in cases if size(c) > 5]
        cases = small + rng.sample(rest, max(0, min(len(rest), limit - len(small))))
    for i, e in enumerate(cases):
        inputs.append({"e": e, "env": env, "t": i % 3, "s": (i // 3) % 2})
    for i in range(2500 if tier == "quick" else 25000):
        env2, vars_, pars, consts = random_env(rng)
        g = E.Gen(rng, vars_, pars, consts, depth=rng.choice([2, 3, 4]), bounds=consts)
        e = broken(rng, g, vars_, pars) if rng.random() < 0.15 else g.lin()
        if size(e) > 60 or weight(e, env2) > 400 or not E.fits(e, (7, 2), env2["T"], env2["S"]):
            continue
        inputs.append({"e": e, "env": env2, "t": rng.randrange(env2["T"]), "s": rng.randrange(env2["S"])})
    return inputs, {"gen_states": r0.distinct, "gen_transitions": r0.states}


def kids(e):
    return e.get("as", []) + [e[x] for x in ("a", "b") if x in e]


def size(e):
    return 1 + sum(size(x) for x in kids(e))


def weight(e, env):
    """Number of leaves after expansion."""
    w = sum(weight(x, env) for x in kids(e)) or 1
    if e["k"] == "asum":
        w *= env["T"]
    elif e["k"] == "scen":
        w *= env["S"]
    elif e["k"] == "tsum":
        w *= 4
    return w


def run(inp):
    from andromede.expression.degree import compute_degree, is_constant, is_linear
    from andromede.expression.evaluate import EvaluationVisitor, ValueProvider
    from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.expression.operators_expansion import ProblemDimensions, expand_operators
    from andromede.expression.visitor import visit
    from andromede.simulation.linearize import ParameterGetter, linearize_expression

    env = inp["env"]

    def value(c, n, t, s):
        st = env["st"][c][n]
        rows = env["val"][c][n]
        if st["t"] != (t is not None) or st["s"] != (s is not None):
            raise RuntimeError("parameter read with the wrong indices")
        return unnum(rows[t % env["T"] if st["t"] else 0][s if st["s"] else 0])

    class Prov(IndexingStructureProvider):
        def get_component_variable_structure(self, component_id, name):
            x = env["st"][component_id][name]
            return IndexingStructure(x["t"], x["s"])

        get_component_parameter_structure = get_component_variable_structure

        def get_parameter_structure(self, name):
            raise RuntimeError()

        get_variable_structure = get_parameter_structure

    class Getter(ParameterGetter):
        def get_parameter_value(self, component_id, parameter_name, timestep, scenario):
            return value(component_id, parameter_name, timestep, scenario)

    class Consts(ValueProvider):
        def get_component_parameter_value(self, component_id, name):
            x = env["st"][component_id][name]
            if x["t"] or x["s"]:
                raise ValueError("not constant")
            return value(component_id, name, None, None)

        def get_component_variable_value(self, component_id, name):
            raise NotImplementedError()

        def get_variable_value(self, name):
            raise NotImplementedError()

        get_parameter_value = get_variable_value

    def bound(x):
        v = visit(x, EvaluationVisitor(Consts()))
        if int(v) != v:
            raise ValueError("not an integer")
        return int(v)

    node = E.real(inp["e"])
    before = repr(node)

    def lin():
        ex = expand_operators(node, ProblemDimensions(env["T"], env["S"]), bound, Prov())
        le = linearize_expression(ex, inp["t"], inp["s"], Getter())
        acc = {}
        for t in le.terms.values():
            key = (t.component_id, t.variable_name,
                   -1 if t.time_index is None else t.time_index % env["T"],
                   -1 if t.scenario_index is None else t.scenario_index)
            acc[key] = acc.get(key, 0) + t.coefficient
        return {"c": num(le.constant),
                "m": [{"c": k[0], "n": k[1], "t": k[2], "s": k[3], "v": num(v)}
                      for k, v in sorted(acc.items())]}

    def idx():
        x = compute_indexation(node, Prov())
        said = (x.is_time_varying(), x.is_scenario_varying(), x.is_time_scenario_varying(), x.is_constant())
        if said != (x.time, x.scenario, x.time and x.scenario, not x.time and not x.scenario):
            return {"t": "inconsistent", "s": said}
        return {"t": bool(x.time), "s": bool(x.scenario)}

    res = {"lin": attempt(lin), "deg": attempt(compute_degree, node),
           "isc": attempt(is_constant, node), "isl": attempt(is_linear, node),
           "idx": attempt(idx)}
    res["same"] = repr(node) == before
    return res
