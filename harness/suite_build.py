"""From a system to the problem handed to the solver, several requests in a row."""
import random

from core import attempt, num, tlc_cases, unnum
import exprs as E
import systems as Y

TRACE = "BuildTrace"
H = 6


def random_request(r, sys, nodes, H=H, sizes=(1, 2, 3, 3), scenarios=(1, 2, 3)):
    n = r.choice(sizes)
    x = r.random()
    if x < 0.6:
        s = r.randrange(H - n + 1)
        block = list(range(s, s + n))
    else:
        block = sorted(r.sample(range(H), n)) if x < 0.9 else r.sample(range(H), n)
    strat = r.choice(["merged", "merged", "merged", "operational", "investment"])
    names = [v for c in sys["comps"] for v in sys["models"][c["model"]]["vars"]]
    full = len(set(names)) < len(names) or r.random() < 0.5
    return {"block": block, "S": r.choice(scenarios), "strat": strat,
            "risk": num(r.choice([1, 1, 1, 0.5, 0.25, 0])), "tree": r.choice(nodes) if nodes else "",
            "full": full, "border": "CYCLE" if r.random() < 0.95 else "IGNORE_OUT_OF_FRAME"}


def cross_once(r, sys):
    """A variable of one model gets bounds that cross for one step, scenario or component only."""
    m = r.choice(sorted({c["model"] for c in sys["comps"]}))
    vs = [v for v in sys["models"][m]["vars"].values() if v["type"] != "boolean"]
    if not vs:
        return
    v = r.choice(vs)
    sys["models"][m]["pars"]["w"] = {"t": v["t"], "s": v["s"]}
    up = r.random() < 0.5
    v["lb"], v["ub"] = (E.lit(1), E.par("w")) if up else (E.par("w"), E.lit(1))
    ok, bad = (lambda: num(r.choice([1, 2, 3]))), num(0 if up else 2)
    if not up:
        ok = lambda: num(r.choice([1, 0, -2]))
    mine = [c["id"] for c in sys["comps"] if c["model"] == m]
    at = r.choice(mine)
    for c in mine:
        d = {"sc": [], "n": {}}
        if v["t"] and v["s"]:
            d.update(k="tsser", v=[[ok() for _ in range(3)] for _ in range(H)])
            if c == at:
                d["v"][r.randrange(H)][r.randrange(3)] = bad
        elif v["t"] or v["s"]:
            d.update(k="tser" if v["t"] else "sser", v=[ok() for _ in range(H if v["t"] else 3)])
            if c == at:
                d["v"][r.randrange(len(d["v"]))] = bad
        else:
            d.update(k="const", v=bad if c == at else ok())
        sys["data"][c]["w"] = d


def small_systems(tier, r):
    """Systems assembled by the generating specification."""
    cases, t = tlc_cases("BuildGen", {"MAXOPS": 4 if tier == "quick" else 6}, timeout=1500)
    inputs = []
    for sys in r.sample(cases, min(len(cases), 350 if tier == "quick" else 6000)):
        sys["data"] = {c: d or {} for c, d in (sys["data"] or {}).items()}
        for d in [d for c in sys["data"].values() for d in c.values()]:
            d["n"] = {}
        for m in sys["models"].values():
            m["pars"] = m["pars"] or {}
        reqs = [{"block": r.choice([[1, 3], [0], [2, 3], [0, 1, 2, 3], [3, 1]]), "S": r.choice([1, 2]), "strat": s,
                 "risk": num(r.choice([1, 0.5])), "tree": "", "full": True, "border": "CYCLE"}
                for s in r.sample(["merged", "operational", "investment"], 2)]
        inputs.append({"sys": sys, "reqs": reqs})
    return inputs, t


def gen(tier, seed):
    rng = random.Random(seed * 7919 + 1)
    inputs, t = small_systems(tier, rng)
    for _ in range(1800 if tier == "quick" else 15000):
        nodes = rng.choice([None, None, ["root", "leaf"]])
        sys = Y.random_system(rng, H, 3, nodes)
        if nodes and rng.random() < 0.25:
            # data of the tree that are not given for every node
            for d in [d for c in sys["data"].values() for d in c.values() if d["k"] == "tree"]:
                if rng.random() < 0.6:
                    d["n"].pop(rng.choice(nodes))
        if rng.random() < 0.1:
            cross_once(rng, sys)
        if rng.random() < 0.12:
            Y.clash(rng, sys["models"], [sys], sys["data"])
        reqs = [random_request(rng, sys, nodes) for _ in range(rng.choice([1, 2, 2]))]
        if rng.random() < 0.3:
            reqs.append(reqs[0])
        if rng.random() < 0.3:
            sys["scale"] = rng.choice([-30, -31, -20, -21, 21, 20])
        inputs.append({"sys": sys, "reqs": reqs})
    for _ in range(60 if tier == "quick" else 600):
        # many steps or many scenarios
        sys = Y.random_system(rng, 14, 12, None, few=True)
        long = rng.random() < 0.6
        inputs.append({"sys": sys, "reqs": [random_request(
            rng, sys, None, 14, (7, 10, 12, 13) if long else (1, 2), (1, 2) if long else (8, 11, 12))]})
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def strategy(name):
    from andromede.simulation import strategy as s

    return {"merged": s.MergedProblemStrategy, "operational": s.OperationalProblemStrategy,
            "investment": s.InvestmentProblemStrategy}[name]()


def run(inp):
    from andromede.simulation import TimeBlock, build_problem
    from andromede.simulation.optimization import BlockBorderManagement
    from andromede.simulation.strategy import ExpectedValue, UniformRisk

    def objects():
        return Y.real_network(inp["sys"]), Y.real_database(inp["sys"])

    made = attempt(objects)
    if made["k"] == "err":
        return made
    net, db = made["v"]

    def shot(net, db):
        """What can be seen of a network and its data."""
        def read(d):
            return [attempt(d.get_value, t, s, n) for n in ("", "root", "leaf") for t in range(H) for s in range(3)]
        return repr([[(c.id, c.model) for c in net.nodes], [(c.id, c.model) for c in net.components],
                     [(k.port1, k.port2) for k in net.connections],
                     [read(db.get_data(c, p)) for c, ps in inp["sys"]["data"].items() for p in ps]])

    before = shot(*objects())

    def one(q):
        risk = UniformRisk() if q["risk"] == [1, 1] else ExpectedValue(unnum(q["risk"]))
        pb = build_problem(net, db, TimeBlock(1, q["block"]), q["S"], build_strategy=strategy(q["strat"]),
                           risk_strategy=risk, decision_tree_node=q["tree"], use_full_var_name=q["full"],
                           border_management=BlockBorderManagement[q["border"]])
        return Y.observe_solver(pb.solver, inp["sys"].get("scale", 0))

    res = [attempt(one, q) for q in inp["reqs"]]
    return {"k": "ok", "v": res, "same": shot(net, db) == before}
