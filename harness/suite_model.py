"""Model definitions, well formed or not."""
import random

from core import attempt
import exprs as E

TRACE = "ModelTrace"
INF, NINF = E.lit(float("inf")), E.lit(float("-inf"))


def gen(tier, seed):
    r = random.Random(seed * 101 + 3)
    n = 8000 if tier == "quick" else 60000
    return [{"m": one(r)} for _ in range(n)] + [{"m": {"pair": pair(r)}} for _ in range(n // 4)], {}


def pair(r):
    """Two elements of models declared alike or almost."""
    ex = [E.lit(0), E.lit(1), E.par("p"), E.par("q"), E.mul(E.lit(2), E.par("p")), INF]
    opt = ex + [E.NONE, E.NONE]
    kind = r.choice(["variable", "variable", "constraint", "constraint", "parameter", "port"])

    def draw():
        if kind == "variable":
            return {"n": r.choice("xy"), "kind": r.choice(["CONTINUOUS", "INTEGER"]), "lb": r.choice(opt), "ub": r.choice(opt),
                    "t": r.random() < 0.5, "s": r.random() < 0.5}
        if kind == "constraint":
            return {"n": r.choice("cd"), "e": E.add(E.var(r.choice("xy")), r.choice(ex[:5])), "lb": r.choice(ex[:5]), "ub": r.choice(ex)}
        if kind == "parameter":
            return {"n": r.choice("pq"), "kind": r.choice(["CONTINUOUS", "INTEGER"]), "t": r.random() < 0.5, "s": r.random() < 0.5}
        return {"n": r.choice(["a", "b"]), "t": r.choice(["f", "g"]), "fields": r.choice([["flow"], ["flow", "angle"]])}

    a, b = draw(), draw()
    c = dict(a)
    for f in r.sample(sorted(a), r.choice([0, 1, 1, 2])):
        c[f] = b[f]
    return {"kind": kind, "a": a, "b": c}


def one(r, spoil=0.6):
    flags = lambda: {"t": r.random() < 0.5, "s": r.random() < 0.5}
    ctx = lambda: r.choice(["OPERATIONAL", "OPERATIONAL", "INVESTMENT", "COUPLING"])
    vs = [dict(flags(), n=n, lb=E.NONE, ub=E.NONE, kind=r.choice(["CONTINUOUS", "CONTINUOUS", "INTEGER", "BOOLEAN"]), ctx=ctx()) for n in r.sample(["x", "y", "z"], r.choice([1, 2, 3]))]
    ps = [dict(flags(), n=n, kind=r.choice(["CONTINUOUS", "INTEGER"])) for n in r.sample(["p", "q"], r.choice([1, 2]))]
    V, P = [E.var(v["n"]) for v in vs], [E.par(p["n"]) for p in ps]
    g = E.Gen(r, V, P, [], depth=2)
    flat = E.Gen(r, V, P, [], depth=2, time_ops=False, scen_ops=False)
    bad = r.random() < spoil           # whether defects are allowed, each with a small probability

    def defect(pr=0.12):
        return bad and r.random() < pr

    def bound(inf):
        x = r.random()
        if defect():
            return r.choice([g.lin(1), r.choice(V), E.mul(E.lit(2), r.choice(V)), E.div(r.choice(P), r.choice(V)),
                             E.port("pa", "flow"), E.pagg("pa", "flow"), E.shift(r.choice(V), 1),
                             E.asum(r.choice(V)), E.neg(r.choice(V)), E.sub(r.choice(V), r.choice(V))])
        return inf if x < 0.3 else flat.const(r.choice([0, 1, 2])) if x < 0.9 else g.const(1)

    for v in vs:
        v["lb"] = r.choice([E.NONE, bound(NINF)])
        v["ub"] = r.choice([E.NONE, bound(INF)])
        if v["kind"] == "BOOLEAN":
            v["lb"], v["ub"] = E.lit(0), E.lit(1)
    types = {"f": ["flow"], "g": ["flow", "angle"], "h": []}
    ports = [{"n": n, "t": r.choice(["f", "g"])} for n in r.sample(["pa", "pb"], r.choice([0, 1, 2]))]
    if ports and defect(0.08):
        ports.append({"n": ports[0]["n"], "t": r.choice(["f", "g"])})
    pfd = []
    for p in ports:
        for f in types[p["t"]]:
            if r.random() < 0.5:
                pfd.append({"p": p["n"], "f": f, "e": g.lin(r.choice([0, 1, 2]))})
    if r.random() < 0.1:                          # a port without fields
        ports.append({"n": "ph", "t": "h"})
        if defect(0.3):
            pfd.append({"p": "ph", "f": "flow", "e": g.lin(1)})
    if pfd and defect(0.25):
        d = r.choice(pfd)
        x = r.randrange(3)
        if x == 0:
            d["p"] = "nope"
        elif x == 1:
            d["f"] = "nope"
        else:
            d["e"] = wrap(r, r.choice([E.cmp_(V[0], E.lit(1), "<="), E.port("pa", "flow"), E.pagg("pa", "flow"),
                                       E.cvar("c", "x"), E.cpar("c", "p")]), V, P)
    seen = set()
    pfd = [d for d in pfd if (d["p"], d["f"]) not in seen and not seen.add((d["p"], d["f"]))]
    cons = []
    for j in range(r.choice([0, 1, 2])):
        pool = V + [E.port(p["n"], "flow") for p in ports] + [E.pagg(p["n"], "flow") for p in ports]
        e = E.Gen(r, pool, P, [], depth=2).lin()
        c = {"n": f"c{j}", "e": e, "lb": NINF, "ub": INF, "ctx": ctx(), "bind": r.random() < 0.4}
        if r.random() < 0.5:
            c["e"] = E.cmp_(e, r.choice([flat.const(1), g.lin(1)]), r.choice(["<=", ">=", "="]))
            if defect(0.2):
                c[r.choice(["lb", "ub"])] = E.lit(r.choice([0, 3, -1]))
        else:
            c["lb"], c["ub"] = bound(NINF), bound(INF)
            if defect(0.1):
                c["lb"] = INF
            if defect(0.1):
                c["ub"] = NINF
        cons.append(c)
    if len(cons) == 2 and cons[0]["bind"] != cons[1]["bind"] and r.random() < 0.3:
        cons[1]["n"] = cons[0]["n"]               # a binding and an inner constraint of the same name

    again = [x for x in (vs, ps, cons, pfd) if x]
    if again and defect(0.08):                    # a name given twice
        x = r.choice(again)
        x.insert(r.randrange(len(x) + 1), dict(r.choice(x)))

    def objective():
        if r.random() < 0.3:
            return E.NONE
        e = g.lin(r.choice([0, 1, 2]))
        if defect(0.35):
            return r.choice([e, E.asum(e), E.expec(e), E.expec(E.asum(E.mul(V[0], V[-1]))), E.mul(E.asum(E.expec(e)), e),
                             E.expec(E.asum(E.div(P[0], V[0]))), E.expec(E.shift(e, 1)), E.asum(E.tsum(e, 0, 1)),
                             {"k": "scen", "a": E.asum(V[0]), "op": "Variance"}, E.expec(E.ev(e, 0)),
                             E.add(E.expec(E.asum(e)), P[0]), E.add(E.expec(E.asum(e)), V[0]),
                             E.mul(E.expec(E.asum(e)), P[0])])
        return r.choice([E.expec(E.asum(e)), E.asum(E.expec(e)), E.add(E.expec(E.asum(e)), E.lit(3))])

    return {"vars": vs, "pars": ps, "cons": cons, "ports": ports, "pfd": pfd, "objop": objective(),
            "objinv": objective(), "types": types, "dyn": r.random() < 0.3}


def wrap(r, e, V, P):
    for _ in range(r.choice([0, 1, 2])):
        e = r.choice([E.neg(e), E.add(V[0], e), E.mul(e, P[0]), E.mul(E.lit(2), e), E.div(e, E.lit(2)), E.shift(e, 1),
                      E.add(V[0], P[0], e), E.add(V[0], P[0], V[-1], e), E.sub(V[0], e), E.div(P[0], e), E.div(E.lit(2), e), E.shift(e, -2),
                      E.asum(e), E.expec(e), E.tsum(e, 0, 1), E.ev(e, 0)])
    return e


def run(inp):
    from andromede.expression.indexing_structure import IndexingStructure as IS
    from andromede.model import Constraint, ModelPort, PortField, PortType, ProblemContext, ValueType, model
    from andromede.model.parameter import Parameter, float_parameter, int_parameter
    from andromede.model.port import port_field_def
    from andromede.model.variable import Variable, bool_var, float_variable, int_variable

    m = inp["m"]

    def opt(e):
        return None if e["k"] == "none" else E.real(e)

    def variable(v, j):
        kw = {"context": ProblemContext[v["ctx"]]} if v["ctx"] != "OPERATIONAL" or j % 2 else {}
        if not (v["t"] and v["s"]) or j % 2:
            kw["structure"] = IS(v["t"], v["s"])
        if v["kind"] == "BOOLEAN":
            return bool_var(v["n"], **kw)
        if v["lb"]["k"] != "none" or j % 2:
            kw["lower_bound"] = opt(v["lb"])
        if v["ub"]["k"] != "none" or j % 2:
            kw["upper_bound"] = opt(v["ub"])
        return {"CONTINUOUS": float_variable, "INTEGER": int_variable}[v["kind"]](v["n"], **kw)

    def parameter(p, j):
        f = {"CONTINUOUS": float_parameter, "INTEGER": int_parameter}[p["kind"]]
        return f(p["n"]) if p["t"] and p["s"] and j % 2 == 0 else f(p["n"], IS(p["t"], p["s"]))

    def constraint(c, j):
        kw = {"context": ProblemContext[c["ctx"]]} if c["ctx"] != "OPERATIONAL" or j % 2 else {}
        if c["lb"] != NINF or j % 2:
            kw["lower_bound"] = E.real(c["lb"])
        if c["ub"] != INF or j % 2:
            kw["upper_bound"] = E.real(c["ub"])
        return Constraint(c["n"], E.real(c["e"]), **kw)

    def build():
        pt = {t: PortType(t, [PortField(f) for f in fs]) for t, fs in m["types"].items()}
        vs = [variable(v, j) for j, v in enumerate(m["vars"])]
        ps = [parameter(p, j) for j, p in enumerate(m["pars"])]
        cs = [(c["bind"], constraint(c, j)) for j, c in enumerate(m["cons"])]
        kw = {"inter_block_dyn": True} if m["dyn"] else {}
        if any(b for b, _ in cs):
            kw["binding_constraints"] = [c for b, c in cs if b]
        x = model(id="m", variables=vs, parameters=ps, constraints=[c for b, c in cs if not b],
                  ports=[ModelPort(pt[p["t"]], p["n"]) for p in m["ports"]],
                  port_fields_definitions=[port_field_def(d["p"], d["f"], E.real(d["e"])) for d in m["pfd"]],
                  objective_operational_contribution=opt(m["objop"]),
                  objective_investment_contribution=opt(m["objinv"]), **kw)
        return x

    def show_var(k, v):
        return {"n": k, "t": v.structure.time, "s": v.structure.scenario, "lb": E.enc(v.lower_bound), "ub": E.enc(v.upper_bound),
                "kind": v.data_type.name, "ctx": v.context.name}

    def show_con(c, bind):
        return {"n": c.name, "e": E.enc(c.expression), "lb": E.enc(c.lower_bound), "ub": E.enc(c.upper_bound), "ctx": c.context.name,
                "bind": bind}

    def show(x):
        return {"vars": [show_var(k, v) for k, v in x.variables.items()],
                "pars": [{"n": k, "t": p.structure.time, "s": p.structure.scenario, "kind": p.type.name} for k, p in x.parameters.items()],
                "cons": [show_con(c, any(c is b for b in x.binding_constraints.values())) for c in x.get_all_constraints()],
                "ports": [{"n": k, "t": p.port_type.id} for k, p in x.ports.items()],
                "pfd": [{"p": k.port_name, "f": k.field_name, "e": E.enc(d.definition)}
                        for k, d in x.port_fields_definitions.items()],
                "objs": [E.enc(x.objective_operational_contribution), E.enc(x.objective_investment_contribution)],
                "dyn": x.inter_block_dyn}

    def all_():
        x = build()
        s = show(x)
        y = x.replicate(id="other")
        same = show(y) == s and y.id == "other" and x.id == "m"
        for q in (x.constraints, x.binding_constraints, x.variables, x.parameters, x.ports, x.port_fields_definitions):
            copies = {k: v.replicate() for k, v in q.items()}
            same = same and copies == q
        for k, v in x.variables.items():
            w = v.replicate(name="w")
            same = same and show_var("w", w) == dict(show_var(k, v), n="w") and w.name == "w" and v.name == k
        for k, v in x.parameters.items():
            w = v.replicate(name="w")
            same = same and (w.name, w.structure, w.type) == ("w", v.structure, v.type) and v.name == k
        for c in x.get_all_constraints():
            w = c.replicate(name="w")
            same = same and show_con(w, False) == dict(show_con(c, False), n="w")
        s["same"] = bool(same) and show(x) == {k: v for k, v in s.items()}
        return s

    def compare():
        q = m["pair"]

        def element(d):
            if q["kind"] == "variable":
                return Variable(d["n"], ValueType[d["kind"]], opt(d["lb"]), opt(d["ub"]), IS(d["t"], d["s"]), ProblemContext.OPERATIONAL)
            if q["kind"] == "constraint":
                return Constraint(d["n"], E.real(d["e"]), E.real(d["lb"]), E.real(d["ub"]))
            if q["kind"] == "parameter":
                return Parameter(d["n"], ValueType[d["kind"]], IS(d["t"], d["s"]))
            return ModelPort(PortType(d["t"], [PortField(f) for f in d["fields"]]), d["n"])

        a, b = element(q["a"]), element(q["b"])
        return {"eq": bool(a == b), "qe": bool(b == a), "self": bool(a == a.replicate()), "other": bool(a == "x")}

    return attempt(compare if "pair" in m else all_)
