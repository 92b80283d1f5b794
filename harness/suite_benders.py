"""Decision trees and Benders decompositions: histories of additions, couplings, builds."""
import random

from core import attempt, num, tlc_cases, unnum
import exprs as E
import systems as Y

TRACE = "BendersTrace"
H = 4
BLANK = {"op": "", "id": "", "parent": 0, "net": 1, "prob": [1, 1], "at": 1, "kids": [],
         "cp": {"id": "", "model": "", "node": False}, "cc": {"id": "", "model": "", "node": False},
         "cpv": "", "ccv": "", "civ": "", "border": "CYCLE",
         "opts": {"solver": "XPRESS", "log": 0, "struct": "structure.txt", "debug": True, "out": "expansion"}}


def inv_model(r, node, ports, side):
    """A model with investment, coupling and operational parts."""
    vars_, pars, cons = {}, {}, []
    names = {"cum": "COUPLING", "inc": "INVESTMENT", "gen": "OPERATIONAL"}
    if node:
        names = {"gap": "OPERATIONAL"}
    elif r.random() < 0.2:
        names.pop(r.choice(list(names)))
    for v, ctx in names.items():
        op = ctx == "OPERATIONAL"
        vars_[v] = {"t": op and r.random() < 0.7, "s": op and r.random() < 0.6,
                    "lb": E.lit(r.choice([0, 0, -2])) if r.random() < 0.8 else E.NONE,
                    "ub": r.choice([E.NONE, E.lit(10), E.lit(4)]),
                    "type": r.choice(["continuous", "continuous", "integer"]), "ctx": ctx}
    for p in r.sample(["p", "q", "k"], r.choice([1, 2, 3])):
        pars[p] = {"t": p == "q" and r.random() < 0.6, "s": p == "q" and r.random() < 0.5}
    flat = [E.par(p) for p, s in pars.items() if not s["t"] and not s["s"]] or [E.lit(3)]
    allp = [E.par(p) for p in pars]
    if vars_.get("cum") and r.random() < 0.3:
        vars_["cum"]["ub"] = E.add(r.choice(flat), E.lit(8))
    by = lambda *cs: [E.var(v) for v, x in vars_.items() if x["ctx"] in cs]
    op_vars, inv_vars, cpl = by("OPERATIONAL", "COUPLING"), by("INVESTMENT", "COUPLING"), by("COUPLING")

    def con(pool, ctx, ps):
        g = E.Gen(r, pool, ps, [], depth=r.choice([0, 1, 2]), time_ops=ctx == "OPERATIONAL", scen_ops=False)
        e = g.lin()
        rhs = r.choice([E.lit(r.choice([0, 5, -3])), r.choice(ps), r.choice(pool)])
        c = {"name": f"c{len(cons)}", "e": E.cmp_(e, rhs, r.choice(["<=", ">=", "="])),
             "lb": Y.NINF, "ub": Y.INF, "ctx": ctx}
        cons.append(c)

    if op_vars:
        pool = list(op_vars)
        for p, t in ports.items():
            pool += [E.pagg(p, f) for f in Y.PTYPES[t]]
        for _ in range(r.choice([1, 1, 2])):
            con(pool, "OPERATIONAL", allp)
    if inv_vars:
        for _ in range(r.choice([0, 1, 2])):
            con(inv_vars, "INVESTMENT", flat)
    if cpl and r.random() < 0.25:
        con(cpl, "COUPLING", flat)
    if op_vars and r.random() < 0.02:
        con(op_vars, "INVESTMENT", flat)
    pfd = [{"p": p, "f": f, "e": E.Gen(r, op_vars or [E.lit(1)], allp, [], depth=1, scen_ops=False).lin()}
           for p, t in ports.items() for f, s in Y.PTYPES[t].items() if s == side]
    objop = objinv = E.NONE
    if op_vars and r.random() < 0.8:
        g = E.Gen(r, op_vars, allp, [], depth=1, scen_ops=False)
        objop = E.expec(E.asum(g.lin()))
    if inv_vars and r.random() < 0.8:
        objinv = E.mul(r.choice(flat), r.choice(inv_vars))
        if r.random() < 0.5:
            objinv = E.add(objinv, r.choice(inv_vars), E.lit(r.choice([0, 2, 5])))
        elif r.random() < 0.3:
            objinv = E.sub(objinv, E.mul(E.lit(3), r.choice(inv_vars)))
    return {"vars": vars_, "pars": pars, "cons": cons, "ports": ports, "pfd": pfd, "objop": objop, "objinv": objinv}


def world(r, ids):
    models = {"n0": inv_model(r, True, {"pa": "flow"}, "B")}
    for j in range(r.choice([1, 2])):
        models[f"m{j}"] = inv_model(r, False, {"pa": "flow"} if r.random() < 0.8 else {}, "A")
    pool = [{"id": "N", "model": "n0", "node": True}]
    tail = lambda: "_" + "l" * r.choice([36, 44, 47, 60]) if r.random() < 0.1 else ""
    pool += [{"id": f"C{j}" + tail(), "model": r.choice([m for m in models if m != "n0"]), "node": False} for j in range(3)]
    nets = []
    for _ in range(r.choice([1, 2, 3])):
        comps = [pool[0]] + [c for c in pool[1:] if r.random() < 0.6]
        if r.random() < 0.1:      # same identifier, another model
            comps = [dict(c, model=r.choice([m for m in models if m != "n0"])) if not c["node"] else c for c in comps]
        conns = [{"c1": "N", "p1": "pa", "c2": c["id"], "p2": "pa"} for c in comps
                 if not c["node"] and models[c["model"]]["ports"] and r.random() < 0.8]
        conns = [{"c1": k["c2"], "p1": "pa", "c2": "N", "p2": "pa"} if r.random() < 0.5 else k for k in conns]
        nets.append({"comps": comps, "conns": conns})
    data = {}
    for c in pool:
        pars = {}
        for net in nets:
            for x in net["comps"]:
                if x["id"] == c["id"]:
                    for p, s in models[x["model"]]["pars"].items():
                        old = pars.get(p, s)
                        pars[p] = {"t": s["t"] and old["t"], "s": s["s"] and old["s"]}
        data[c["id"]] = {p: Y.random_data(r, s, H, 2, ids if r.random() < 0.6 else None) for p, s in pars.items()}
    cfg = {}
    for i in ids:
        nb = r.choice([1, 1, 2])
        blocks = []
        for b in range(nb):
            n = r.choice([1, 2, 3])
            s = r.randrange(H - n + 1)
            blocks.append({"id": b + r.choice([1, 1, 5]), "steps": list(range(s, s + n))})
        if nb == 2 and blocks[0]["id"] == blocks[1]["id"] and r.random() < 0.9:
            blocks[1]["id"] += 1
        cfg[i] = {"blocks": blocks, "S": r.choice([1, 2])}
    return {"models": models, "ptypes": {t: sorted(f) for t, f in Y.PTYPES.items()}, "data": data, "nets": nets, "cfg": cfg}


SPLITS = [[1], [0.5, 0.5], [0.25, 0.75], [0.2, 0.3, 0.5], [0.1, 0.9], [0.6, 0.4], [1, 0]]


def history(r, w, ids):
    ops, nodes = [], []
    free = list(ids)

    def op(**k):
        ops.append(dict(BLANK, **k))

    def extra():
        d = {}
        if r.random() < 0.03:
            d["border"] = "IGNORE_OUT_OF_FRAME"
        if r.random() < 0.4:
            d["opts"] = {"solver": r.choice(["XPRESS", "COIN", "CBC", "Coin", "cbc"]), "log": r.choice([0, 1, 3]), "debug": r.random() < 0.5,
                         "struct": r.choice(["structure.txt", "other.txt"]), "out": r.choice(["expansion", "res"])}
        return d

    def add(parent, p):
        if r.random() < 0.05:
            op(op="add", id=free[0], parent=parent, net=r.randrange(len(w["nets"])) + 1, prob=num(r.choice([1.5, -0.25, 2])))
        if not free:
            return
        n = {"id": free.pop(0), "parent": parent, "net": r.randrange(len(w["nets"])) + 1}
        nodes.append(n)
        op(op="add", id=n["id"], parent=parent, net=n["net"], prob=num(p))
        return len(nodes)

    roots = [add(0, 1)] + ([add(0, 1)] if r.random() < 0.2 else [])
    if r.random() < 0.15:
        ops.clear(), nodes.clear()
        free[:] = ids
        roots = [add(0, p) for p in r.choice([[0.5, 0.5], [0.25, 0.75], [0.5, 0.25]])]
    front, rare = list(roots), 0
    for _ in range(r.choice([0, 1, 2, 2])):
        p = r.choice(front)
        split = [s for s in SPLITS if len(s) <= len(free)]
        if not split or any(n["parent"] == p for n in nodes):
            continue
        s = r.choice(split)
        if len(free) > 2 and not rare and r.random() < 0.3:
            # a rare branch, then followed
            s = r.choice([[0.02, 0.98], [0.01, 0.99], [0.99, 0.01]])
            rare = len(nodes) + 1 + (s[0] > 0.5)
            front = [rare]
            for q in s:
                add(p, q)
            continue
        if r.random() < (0.4 if rare else 0.1):
            s = s[:-1] + [r.choice([0.5, 0.3])]
        if p in roots and not rare and len(nodes) == len(roots) and s[-1] and r.random() < 0.06:
            # nearly complete
            for q in s[:-1] + [s[-1] - 1 / 128]:
                add(p, q)
            break
        front += [x for x in (add(p, q) for q in s) if x]
    if r.random() < 0.25 and free:
        # from the leaves to the root
        if r.random() < 0.1:
            op(op="add", id=free[0], kids=list(roots), prob=num(r.choice([1.5, -0.25])))
        op(op="add", id=free[0], kids=list(roots), net=r.randrange(len(w["nets"])) + 1, prob=num(r.choice([1, 1, 0.5])))
        nodes.append({"id": free.pop(0), "parent": 0, "net": ops[-1]["net"]})
        for x in roots:
            nodes[x - 1]["parent"] = len(nodes)
        roots = [len(nodes)]
    for _ in range(r.choice([0, 1, 2, 4])):
        at = r.randrange(len(nodes)) + 1
        n = nodes[at - 1]
        mine = w["nets"][n["net"] - 1]["comps"]
        his = w["nets"][nodes[n["parent"] - 1]["net"] - 1]["comps"] if n["parent"] else mine
        allc = [c for net in w["nets"] for c in net["comps"]]
        pick = lambda cs: r.choice([c for c in cs if not c["node"]] or cs) if r.random() < 0.93 else r.choice(allc)
        other = lambda c: c if c["node"] or r.random() < 0.94 else dict(c, model=r.choice([m for m in w["models"] if m != "n0"]))
        v = lambda good: good if r.random() < 0.93 else r.choice(["cum", "inc", "gen", "gap", "nope"])
        op(op="define", at=at, cp=other(pick(his)), cc=other(pick(mine)), cpv=v("cum"), ccv=v("cum"), civ=v("inc"))
        if r.random() < 0.15:
            op(op="build", at=r.choice(roots), **extra())
    for x in roots:
        op(op="build", at=x, **extra())
    if r.random() < 0.3:
        op(op="build", at=r.randrange(len(nodes)) + 1)
    if r.random() < 0.2:
        op(op="build", at=roots[0])
    return ops


def small_world():
    inf = {"lb": Y.NINF, "ub": Y.INF}
    v = lambda ctx, **k: dict({"t": False, "s": False, "lb": E.lit(0), "ub": E.NONE, "type": "continuous", "ctx": ctx}, **k)
    m = {"vars": {"cum": v("COUPLING", ub=E.lit(9), type="integer"), "inc": v("INVESTMENT", lb=E.lit(-1)),
                  "gen": v("OPERATIONAL", t=True)},
         "pars": {"p": {"t": False, "s": False}},
         "cons": [dict(inf, name="c0", e=E.cmp_(E.var("gen"), E.var("cum"), "<="), ctx="OPERATIONAL"),
                  dict(inf, name="c1", e=E.cmp_(E.var("inc"), E.par("p"), "<="), ctx="INVESTMENT")],
         "ports": {}, "pfd": [], "objop": E.expec(E.asum(E.var("gen"))),
         "objinv": E.add(E.mul(E.par("p"), E.var("inc")), E.lit(2))}
    k = {"vars": {"cum": v("INVESTMENT")}, "pars": {}, "cons": [], "ports": {}, "pfd": [], "objop": E.NONE,
         "objinv": E.mul(E.lit(3), E.var("cum"))}
    c = lambda i, x: {"id": i, "model": x, "node": False}
    ids = ["n1", "n2", "n3", "n4"]
    tree = {"k": "tree", "v": [], "sc": [], "n": {i: {"k": "const", "v": [j + 4, 1], "sc": [], "n": {}} for j, i in enumerate(ids)}}
    return {"models": {"m": m, "k": k}, "ptypes": {}, "data": {"A": {"p": tree}},
            "nets": [{"comps": [c("A", "m")], "conns": []}, {"comps": [c("A", "m"), c("B", "k")], "conns": []}],
            "cfg": {i: {"blocks": [{"id": 1, "steps": [0, 1]}][: 1] + [{"id": 2, "steps": [1]}] * (j % 2), "S": 1}
                    for j, i in enumerate(ids)}}


def gen(tier, seed):
    r = random.Random(seed * 53 + 11)
    cases, t = tlc_cases("TreeGen", {"MAXOPS": 4 if tier == "quick" else 5})
    w = small_world()
    inputs = [{"w": w, "ops": [dict(BLANK, **o) for o in c]} for c in r.sample(cases, min(len(cases), 700 if tier == "quick" else 12000))]
    for _ in range(800 if tier == "quick" else 6000):
        x = r.random()
        ids = ["r", "r_a" if x < 0.1 else "r_b1" if x < 0.15 else "a", "b", "c", "d"]
        w = world(r, ids)
        if x < 0.05:
            # C1 is also a_C0: node r with a_C0, node r_a with C0
            for net in w["nets"]:
                for d in [c for c in net["comps"] if c["id"] == "C1"] + net["conns"]:
                    d.update({k: "a_C0" for k in d if d[k] == "C1"})
            if "C1" in w["data"]:
                w["data"]["a_C0"] = w["data"].pop("C1")
        elif x > 0.85:
            Y.clash(r, w["models"], w["nets"], w["data"], ("cum", "inc", "gen"))
        inputs.append({"w": w, "ops": history(r, w, ids)})
        if r.random() < 0.4 and all(o["op"] != "define" for o in inputs[-1]["ops"]):
            w["scale"] = r.choice([-30, -20, 20])
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def run(inp):
    import json
    import shutil
    import tempfile
    from pathlib import Path

    from andromede.simulation import TimeBlock
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
    from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
    from andromede.simulation.optimization import BlockBorderManagement
    from andromede.study import Network, PortRef, create_component
    from andromede.study.network import create_node

    w = inp["w"]
    pt = Y.real_ptypes(w["ptypes"])
    made = attempt(lambda: {n: Y.real_model(n, m, pt, w.get("scale", 0)) for n, m in w["models"].items()})
    if made["k"] == "err":
        return made
    models = made["v"]

    def comp(c):
        return (create_node if c["node"] else create_component)(models[c["model"]], c["id"])

    def network(x):
        net = Network("net")
        for c in x["comps"]:
            (net.add_node if c["node"] else net.add_component)(comp(c))
        for k in x["conns"]:
            net.connect(PortRef(net.get_component(k["c1"]), k["p1"]), PortRef(net.get_component(k["c2"]), k["p2"]))
        return net

    made = attempt(lambda: ([network(x) for x in w["nets"]], Y.real_database(w)))
    if made["k"] == "err":
        return made
    nets, db = made["v"]
    nodes = []

    def step(op):
        if op["op"] == "add":
            c = w["cfg"][op["id"]]
            n = DecisionTreeNode(op["id"],
                                 InterDecisionTimeScenarioConfig([TimeBlock(b["id"], b["steps"]) for b in c["blocks"]], c["S"]),
                                 nets[op["net"] - 1], parent=nodes[op["parent"] - 1] if op["parent"] else None,
                                 children=[nodes[k - 1] for k in op["kids"]] or None, prob=unnum(op["prob"]))
            nodes.append(n)
            return [num(x.prob) for x in nodes]
        if op["op"] == "define":
            nodes[op["at"] - 1].define_coupling_constraint(comp(op["cp"]), op["cpv"], comp(op["cc"]), op["ccv"], op["civ"])
            return "done"
        q = op["opts"]
        d = build_benders_decomposed_problem(nodes[op["at"] - 1], db, struct_filename=q["struct"],
                                             border_management=BlockBorderManagement[op["border"]])
        tmp = Path(tempfile.mkdtemp())
        try:
            at = tmp / "lp" if len(nodes) % 2 else tmp / "a" / "b" / "lp"
            if len(nodes) % 3 == 0:  # an older export left files of the same names behind
                at.mkdir(parents=True)
                for f in [f"{p.name}.mps" for p in [d.master] + list(d.subproblems)] + [q["struct"], "options.json"]:
                    (at / f).write_text("stale 0 0\n" * 50)
            d.emplacement = at
            d.output_path = Path(q["out"])
            d.initialise(is_debug=q["debug"], solver_name=q["solver"], log_level=q["log"])
            txt = d.export_structure()
            opts = json.loads((at / "options.json").read_text())
            probs = [d.master] + list(d.subproblems)
            files = [(at / f"{p.name}.mps").read_text() == p.export_as_mps() for p in probs]
            if q["debug"]:
                files += [(at / f"{p.name}.lp").read_text() == p.export_as_lp() for p in probs]
            files += [(at / q["struct"]).read_text() == txt, opts["MASTER_NAME"] == d.master.name]
            said = {"solver": opts["SOLVER_NAME"], "log": opts["LOG_LEVEL"], "struct": opts["STRUCTURE_FILE"],
                    "debug": any(at.glob("*.lp")), "out": str(Path(opts["JSON_FILE"]).parent)}
            files += [Path(opts["JSON_FILE"]).name == "out.json"]
        finally:
            shutil.rmtree(tmp)
        lines = []
        for x in txt.splitlines():
            p, v, c = x.split()
            lines.append({"p": p, "v": v, "c": int(c)})
        return {"name": d.master.name, "master": Y.observe_solver(d.master.solver, w.get("scale", 0)),
                "subs": [{"name": s.name, "p": Y.observe_solver(s.solver, w.get("scale", 0))} for s in d.subproblems],
                "structure": lines, "files": files, "opts": said}

    return {"k": "ok", "v": [attempt(step, op) for op in inp["ops"]]}
