"""Random systems (models, components, connections, data): JSON form and real objects."""
import json

import exprs as E
from core import num, unnum

INF, NINF = E.lit(float("inf")), E.lit(float("-inf"))
VALS = [0, 1, 2, 3, -1, -2, 5, 0.5, 7]
# identifiers close to each other, or to names of other things
IDS = ["C0", "c0", "C00", "C10", "C1", "n 1", "n  1", "gen-1", "gen.1", "x", "p", "0", "t", "C_0", "s0", "N0", "N", "n0", "None", "sum"]
# field -> which side of a connection defines it
PTYPES = {"flow": {"flow": "A"}, "mix": {"flow": "A", "angle": "B"}, "duo": {"flow": "A", "cost": "A"}}


def _expr(g, ok, tries=30):
    for _ in range(tries):
        e = g()
        if ok(e):
            return e
    return None


def random_model(r, name, node, small=False):
    vars_, pars = {}, {}
    for v in r.sample(["x", "y", "z"], r.choice([1, 1, 2, 2, 3]) if not node else r.choice([0, 1])):
        vars_[v] = {"t": r.random() < 0.7, "s": r.random() < 0.6, "lb": E.NONE, "ub": E.NONE,
                    "type": r.choice(["continuous"] * 4 + ["integer", "boolean"]), "ctx": "OPERATIONAL"}
    for p in r.sample(["p", "q", "k"], r.choice([0, 1, 2, 2, 3])):
        pars[p] = {"t": r.random() < 0.5, "s": r.random() < 0.4} if p != "k" else {
            "t": r.random() < 0.05, "s": r.random() < 0.05}
    # contexts: the same for the whole model, most of the time
    ctx = r.choice(["OPERATIONAL"] * 4 + ["COUPLING", "INVESTMENT"])
    for v in vars_.values():
        v["ctx"] = ctx if r.random() < 0.94 else r.choice(["OPERATIONAL", "INVESTMENT", "COUPLING"])
    vs = [E.var(v) for v in vars_] or [E.lit(r.choice([1, 2]))]
    ps = [E.par(p) for p in pars]
    ks = [E.par(p) for p in pars if p == "k"]

    def okc(e):
        return E.fits(e, (14, 2), 3, 3, 1_000_000) and depth_weight(e) <= 40

    def lin(d=2):
        g = E.Gen(r, vs, ps, ks, depth=d, bounds=ks)
        return _expr(g.lin, okc) or vs[0]

    def bound(d=1, v=None):
        qs = ps if v is None or r.random() < 0.05 else \
            [E.par(p) for p, x in pars.items() if x["t"] <= v["t"] and x["s"] <= v["s"]]
        g = E.Gen(r, vs, qs, ks, depth=d, time_ops=False, scen_ops=False)
        return g.const(r.choice([0, d]))

    for v in vars_.values():
        if v["type"] == "boolean":
            v["lb"], v["ub"] = E.lit(0), E.lit(1)
            continue
        x = r.random()
        if x < 0.35:
            v["lb"], v["ub"] = E.lit(r.choice([0, -3, -10])), E.lit(r.choice([3, 10, 12]))
        elif x < 0.6:
            b = bound(1, v)
            v["lb"], v["ub"] = b, E.add(b, E.lit(r.choice([0, 1, 4])))
        elif x < 0.75:
            v["lb"] = bound(1, v) if r.random() < 0.6 else E.lit(0)
        elif x < 0.9:
            v["ub"] = bound(1, v)
        elif x < 0.92:
            v["lb"], v["ub"] = bound(1, v), bound(1, v)
        elif x < 0.95:
            # bounds that cross at some steps or scenarios only
            q = [E.par(p) for p, y in pars.items() if y["t"] <= v["t"] and y["s"] <= v["s"] and (y["t"] or y["s"])]
            if q:
                b = r.choice([(E.lit(-1), r.choice(q)), (r.choice(q), E.lit(3)), (E.lit(0), r.choice(q))])
                v["lb"], v["ub"] = b
    ports, pfd, sides = {}, [], {}
    for p in r.sample(["pa", "pb"], r.choice([0, 1, 1, 2]) if not node else r.choice([1, 1, 2])):
        t = r.choice(list(PTYPES))
        ports[p] = t
        sides[p] = ("B" if r.random() < 0.8 else "A") if node else ("A" if r.random() < 0.8 else "B")
        for f, s in PTYPES[t].items():
            if s == sides[p]:
                pfd.append({"p": p, "f": f, "e": lin(r.choice([0, 1, 2]))})
    cons = []
    for j in range(r.choice([0, 1, 1, 2, 2, 3])):
        pool = list(vs)
        wants = []
        for p, t in ports.items():
            for f in PTYPES[t]:
                pool.append(E.pagg(p, f))
                wants.append(E.pagg(p, f))
                if PTYPES[t][f] != sides[p] and r.random() < 0.1:
                    pool.append(E.port(p, f))
                    wants.append(E.port(p, f))
        g = E.Gen(r, pool, ps, ks, depth=r.choice([0, 1, 2, 2, 3]), bounds=ks)
        e = _expr(g.lin, okc) or pool[0]
        if wants and r.random() < 0.5:
            e = E.add(e, r.choice(wants))
        x = r.random()
        c = {"name": f"c{j}", "e": e, "lb": NINF, "ub": INF,
             "ctx": ctx if r.random() < 0.95 else r.choice(["OPERATIONAL", "INVESTMENT", "COUPLING"])}
        if x < 0.5:
            rhs = bound() if r.random() < 0.6 else (_expr(g.lin, okc) or E.lit(1))
            c["e"] = E.cmp_(e, rhs, r.choice(["<=", ">=", "="]))
        elif x < 0.65:
            c["lb"] = bound()
        elif x < 0.8:
            c["ub"] = bound()
        elif x < 0.95:
            c["lb"], c["ub"] = bound(), bound()
        cons.append(c)
    if len(cons) > 1 and r.random() < 0.2:        # a binding and an inner constraint of the same name
        cons[1]["name"] = cons[0]["name"]

    def objective():
        x = r.random()
        if x < 0.35:
            return E.NONE
        e = lin(r.choice([0, 1, 2]))
        if x < 0.6:
            return E.expec(E.asum(e))
        if x < 0.85:
            return E.asum(E.expec(e))
        if x < 0.95:
            return E.add(E.expec(E.asum(e)), E.mul(bound0(), E.expec(E.asum(vs[0]))))
        return E.neg(E.expec(E.asum(e)))

    def bound0():
        flat = [E.par(p) for p in pars if not pars[p]["t"] and not pars[p]["s"]]
        return r.choice(flat) if flat else E.lit(r.choice([2, 3, -1]))

    objop = objective()
    x = r.random()
    return {"vars": vars_, "pars": pars, "cons": cons, "ports": ports, "pfd": pfd,
            "objop": objop, "objinv": objop if x < 0.1 else objective() if x < 0.55 else E.NONE}, sides


def kids(e):
    return e.get("as", []) + [e[x] for x in ("a", "b") if x in e]


def depth_weight(e):
    w = sum(depth_weight(x) for x in kids(e)) or 1
    return w * {"asum": 3, "scen": 3, "tsum": 3}.get(e["k"], 1)


def random_data(r, st, H, Y, nodes):
    """Data for one parameter of structure st, over H time steps and Y years."""
    def v():
        return num(r.choice(VALS))

    kinds = ["const"]
    if st["t"]:
        kinds += ["tser"] * 2
    if st["s"]:
        kinds += ["sser"] * 2
    if st["t"] and st["s"]:
        kinds += ["tsser"] * 3
    if r.random() < 0.004:
        kinds = ["tser", "sser", "tsser"]
    if nodes and r.random() < 0.4:
        return {"k": "tree", "v": [], "sc": [],
                "n": {n: random_data(r, st, H, Y, None) for n in nodes}}
    k = r.choice(kinds)
    d = {"k": k, "sc": [], "n": {}}
    ns = r.choice([Y, Y, Y + 2])
    if k == "const":
        d["v"] = v()
    elif k == "tser":
        d["v"] = [v() for _ in range(H)]
    elif k == "sser":
        d["v"] = [v() for _ in range(ns)]
    else:
        d["v"] = [[v() for _ in range(ns)] for _ in range(H)]
    if k in ("sser", "tsser") and r.random() < 0.5:
        d["sc"] = [r.randrange(ns) for _ in range(Y)]
    return d


def rename_variable(m, old, new):
    """In a model, everywhere."""
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "var" and x.get("n") == old:
                x["n"] = new
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(m)
    m["vars"] = {new if n == old else n: v for n, v in m["vars"].items()}


def clash(r, models, nets, data, keep=()):
    """Identifiers and names that can be joined into the same name: a + b_c and a_b + c."""
    mine = {c["id"]: c["model"] for net in nets for c in net["comps"]}
    if len(mine) < 2:
        return
    a, b = max((r.sample(sorted(mine), 2) for _ in range(3)), key=lambda y: sum(len(models[mine[k]]["cons"]) for k in y))
    if a + "_a" in mine:
        return
    for net in nets:
        for c in net["comps"]:
            if c["id"] == b:
                c["id"] = a + "_a"
        for k in net["conns"]:
            for e in ("c1", "c2"):
                if k[e] == b:
                    k[e] = a + "_a"
    if b in data:
        data[a + "_a"] = data.pop(b)
    m, o = models[mine[a]], models[mine[b]]
    vs = [v for v in m["vars"] if v not in keep]
    x = r.random()
    if x < 0.4 and vs and o["vars"]:
        w = r.choice(list(o["vars"]))
        new = f"a_{w}" if x < 0.3 else r.choice(list(m["vars"])) + r.choice(["_t0", "_s1", "_t1_s0"])
        if new not in m["vars"]:
            rename_variable(m, r.choice(vs), new)
    pairs = [(c, d) for c in m["cons"] for d in o["cons"] if c is not d]
    if x >= 0.3 and pairs:
        c, d = r.choice(pairs)
        if all(k["name"] != "a_" + d["name"] for k in m["cons"]):
            c["name"], c["ctx"] = "a_" + d["name"], d["ctx"]


def random_system(r, H=6, Y=3, nodes=None, few=False):
    models, sides = {}, {}
    for m in ["n0", "m0", "m1", "m2"][: r.choice([2, 3, 3, 4])]:
        models[m], sides[m] = random_model(r, m, m == "n0")
    comps = []
    ids = [f"N{j}" for j in range(2)] + [f"C{j}" for j in range(6)]
    if r.random() < 0.4:
        ids = r.sample(IDS, len(ids))
    for j in range(1 if few else r.choice([1, 1, 2])):
        comps.append({"id": ids[j], "model": "n0" if r.random() < 0.8 else r.choice(list(models)), "node": True})
    others = [m for m in models if m != "n0"]
    for j in range(1 if few else r.choice([1, 2, 2, 2, 3, 3, 3, 5])):
        comps.append({"id": ids[2 + j], "model": r.choice(others), "node": False})
    ends = [(c["id"], p, models[c["model"]]["ports"][p], sides[c["model"]][p])
            for c in comps for p in models[c["model"]]["ports"]]
    conns = []
    pairs = [(a, b) for a in ends for b in ends if a[2] == b[2] and a[3] != b[3] and a < b]
    r.shuffle(pairs)
    for a, b in pairs[: r.choice([1, 2, 3, 4, 5])]:
        if r.random() < 0.5:
            a, b = b, a
        conns.append({"c1": a[0], "p1": a[1], "c2": b[0], "p2": b[1]})
    if conns and r.random() < 0.06:               # the same two ports once more
        k = r.choice(conns)
        conns.append(dict(k) if r.random() < 0.5 else {"c1": k["c2"], "p1": k["p2"], "c2": k["c1"], "p2": k["p1"]})
    data = {}
    for c in comps:
        pars = models[c["model"]]["pars"]
        data[c["id"]] = {p: random_data(r, pars[p], H, Y, nodes if p != "k" else None) for p in pars}
        if "k" in pars:
            data[c["id"]]["k"] = {"k": "const", "sc": [], "n": {}, "v": num(r.choice([0, 1, 2, -1, 3]))}
        if data[c["id"]] and r.random() < 0.004:
            data[c["id"]].popitem()
    # a bound in time which is nearly an integer
    if str(models).count("'n': 'k'") <= 3:
        for c in data.values():
            if "k" in c and r.random() < 0.12:
                c["k"]["v"] = num(r.choice([0.5, 1.0625, -1.0625]))
    return {"models": models, "comps": comps, "conns": conns, "data": data,
            "ptypes": {t: sorted(f) for t, f in PTYPES.items()}}


# ------------------------------------------------------------------ real objects
def scaled(e, k):
    """The expression in a unit 2^k times smaller."""
    if k == 0 or e["k"] == "none" or e["k"] == "lit" and e["v"][1] == 0:
        return E.real(e)
    if e["k"] == "cmp":
        from andromede.expression.expression import ComparisonNode

        n = E.real(e)
        return ComparisonNode(scaled(e["a"], k), scaled(e["b"], k), n.comparator)
    return 2.0 ** k * E.real(e) if k % 2 else E.real(e) * 2.0 ** k


def real_model(name, m, ptypes, scale=0):
    from andromede.expression.indexing_structure import IndexingStructure as IS
    from andromede.model import Constraint, ModelPort, model
    from andromede.model.common import ProblemContext, ValueType
    from andromede.model.parameter import float_parameter
    from andromede.model.port import port_field_def
    from andromede.model.variable import Variable, bool_var, float_variable, int_variable

    known = {}

    def shared(e, k=0):
        """Equal expressions of one model are one object."""
        key = (json.dumps(e), k)
        if key not in known:
            known[key] = scaled(e, k)
        return known[key]

    def opt(e, k=0):
        return None if e["k"] == "none" else shared(e, k)

    vs = []
    for n, v in m["vars"].items():
        s, c = IS(v["t"], v["s"]), ProblemContext[v["ctx"]]
        if v["type"] == "boolean":
            vs.append(bool_var(n, structure=s, context=c))
        else:
            mk = float_variable if v["type"] == "continuous" else int_variable
            vs.append(mk(n, lower_bound=opt(v["lb"]), upper_bound=opt(v["ub"]), structure=s, context=c))
    cons = [Constraint(c["name"], shared(c["e"], scale), shared(c["lb"], scale), shared(c["ub"], scale),
                       context=ProblemContext[c["ctx"]]) for c in m["cons"]]
    return model(
        id=name, variables=vs, constraints=[c for j, c in enumerate(cons) if j % 3 != 1],
        binding_constraints=[c for j, c in enumerate(cons) if j % 3 == 1],
        parameters=[float_parameter(p, IS(x["t"], x["s"])) for p, x in m["pars"].items()],
        ports=[ModelPort(port_type=ptypes[t], port_name=p) for p, t in m["ports"].items()],
        port_fields_definitions=[port_field_def(d["p"], d["f"], shared(d["e"])) for d in m["pfd"]],
        objective_operational_contribution=opt(m["objop"], scale),
        objective_investment_contribution=opt(m["objinv"], scale))


def real_ptypes(ptypes):
    from andromede.model import PortField, PortType

    return {t: PortType(t, [PortField(f) for f in fs]) for t, fs in ptypes.items()}


def real_network(sys):
    from andromede.study import Network, PortRef, create_component
    from andromede.study.network import create_node

    pt = real_ptypes(sys["ptypes"])
    models = {n: real_model(n, m, pt, sys.get("scale", 0)) for n, m in sys["models"].items()}
    net = Network("net")
    objs = {}
    for c in sys["comps"]:
        if c["node"]:
            objs[c["id"]] = create_node(models[c["model"]], c["id"])
            net.add_node(objs[c["id"]])
        else:
            objs[c["id"]] = create_component(models[c["model"]], c["id"])
            net.add_component(objs[c["id"]])
    for k in sys["conns"]:
        net.connect(PortRef(objs[k["c1"]], k["p1"]), PortRef(objs[k["c2"]], k["p2"]))
    return net


def real_data(d):
    import pandas as pd

    from andromede.study.data import (ConstantData, Scenarization, ScenarioIndex, ScenarioSeriesData,
                                      TimeIndex, TimeScenarioSeriesData, TimeSeriesData, TreeData)

    sc = Scenarization(dict(enumerate(d["sc"]))) if d["sc"] else None
    if d["k"] == "const":
        return ConstantData(unnum(d["v"]))
    if d["k"] == "tser":
        return TimeSeriesData({TimeIndex(i): unnum(x) for i, x in enumerate(d["v"])})
    if d["k"] == "sser":
        return ScenarioSeriesData({ScenarioIndex(i): unnum(x) for i, x in enumerate(d["v"])}, sc)
    if d["k"] == "tsser":
        return TimeScenarioSeriesData(pd.DataFrame([[unnum(x) for x in row] for row in d["v"]]), sc)
    return TreeData({n: real_data(x) for n, x in d["n"].items()})


def real_database(sys):
    from andromede.study import DataBase

    db = DataBase()
    for c, ps in sys["data"].items():
        for p, d in ps.items():
            db.add_data(c, p, real_data(d))
    return db


def observe_solver(solver, scale=0):
    """The linear problem held by a solver, rows and objective in units of 2^scale."""
    unit = 2.0 ** -scale

    def num_(x):
        return num(x * unit)

    vs = solver.variables()
    rows = []
    for c in solver.constraints():
        m = [{"n": v.name(), "v": num_(c.GetCoefficient(v))} for v in vs]
        rows.append({"name": c.name(), "lb": num_(c.Lb()), "ub": num_(c.Ub()),
                     "m": [x for x in m if x["v"] != [0, 1]]})
    o = solver.Objective()
    m = [{"n": v.name(), "v": num_(o.GetCoefficient(v))} for v in vs]
    return {"vars": [{"name": v.name(), "lb": num(v.Lb()), "ub": num(v.Ub()), "int": bool(v.Integer())}
                     for v in vs],
            "rows": rows,
            "obj": {"c": num_(o.Offset()), "m": [x for x in m if x["v"] != [0, 1]],
                    "min": bool(o.minimization())}}
