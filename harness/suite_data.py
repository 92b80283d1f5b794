"""Histories of a data base: additions, scenarization years, reads, consistency."""
import random

from core import attempt, fine, tlc_cases, unnum

TRACE = "DataTrace"
BLANK = {"c": "", "p": "", "z": "", "d": {"k": "const", "v": [0, 1], "z": "", "n": {}}, "t": 0, "s": 0, "y": 0,
         "node": "", "bt": False, "bs": False, "comps": [], "m": [[[0, 1]]], "kind": "", "missing": False, "via": "",
         "sep": " "}


def datum(r, zs, tree=True):
    v = lambda: fine(r.choice([0, 1, 2, 3, -1, 0.5, 1000, 12.25, 0.1, 1e-7, 123456.789]))
    k = r.choice(["const", "tser", "sser", "sser", "tsser", "tsser"] + (["tree"] if tree else []))
    H, S = r.choice([1, 2, 3, 3, 12]), r.choice([1, 2, 3, 3, 12])
    d = {"k": k, "v": v(), "z": "", "n": {}}
    if k == "tser":
        d["v"] = [v() for _ in range(H)]
    elif k == "sser":
        d["v"] = [v() for _ in range(S)]
    elif k == "tsser":
        d["v"] = [[v() for _ in range(S)] for _ in range(H)]
    elif k == "tree":
        d["v"] = []
        d["n"] = {n: datum(r, zs, False) for n in r.sample(["a", "b", "c"], r.choice([1, 2, 3]))}
    if k in ("sser", "tsser") and zs and r.random() < 0.6:
        d["z"] = r.choice(zs)
    return d


def history(r):
    ops, zs, keys = [], [], []
    C, P = ["A", "B", "AB"], ["p", "q", "Bp"]

    def op(**k):
        ops.append(dict(BLANK, **k))

    for z in ["z1", "z2"][: r.choice([0, 1, 2])]:
        op(op="new", z=z)
        zs.append(z)
    kinds = ["add"] * 3 + ["get"] * 6 + ["fits", "fits", "consistent", "series", "file"] + (["year"] * 4 if zs else [])
    for _ in range(r.choice([6, 12, 20])):
        k = r.choice(kinds)
        c, p = r.choice(keys) if keys and r.random() < 0.85 else (r.choice(C), r.choice(P))
        if k == "year":
            op(op=k, z=r.choice(zs), y=r.randrange(4), s=r.choice([0, 1, 2] * 4 + [-2]))
        elif k == "add":
            c, p = r.choice(C), r.choice(P)
            keys.append((c, p))
            op(op=k, c=c, p=p, d=datum(r, zs))
        elif k == "get":
            via = r.choice(["data", "data", "db"])
            t, s = r.choice([-2, -1, -1, 0, 1, 2, 2, 3, 11]), r.choice([-3, -1, -1, 0, 1, 2, 2, 3, 11])
            op(op=k, c=c, p=p, t=t, s=s, node=r.choice(["", "a", "b", "c"]) if via == "data" else "", via=via)
        elif k == "fits":
            op(op=k, c=c, p=p, bt=r.random() < 0.5, bs=r.random() < 0.5)
        elif k == "consistent":
            comps = []
            for x in r.sample(C, r.choice([1, 2])):
                mine = [q for y, q in keys if y == x]
                ps = r.sample(mine, min(len(mine), r.choice([1, 2]))) if mine and r.random() < 0.9 else r.sample(P, 1)
                comps.append({"id": x, "node": r.random() < 0.4,
                              "pars": {q: {"t": r.random() < 0.8, "s": r.random() < 0.8} for q in ps}})
            op(op=k, comps=comps)
        else:
            n, w = (r.choice([(1, 1), (1, 3), (3, 1), (2, 2), (1, 2), (2, 1), (11, 1), (1, 11), (10, 3)]))
            m = [[fine(r.choice([0, 1, -2, 0.5, 7, 1e6, 3.25, 0.1, 1e-7, 123456.789])) for _ in range(w)] for _ in range(n)]
            op(op=k, m=m, kind=r.choice(["time", "scen"]), missing=k == "file" and r.random() < 0.2,
               sep=r.choice([" ", "\t", "   "]))
    return ops


def gen(tier, seed):
    r = random.Random(seed * 17 + 5)
    cases, t = tlc_cases("DataGen", {"MAXOPS": 3 if tier == "quick" else 4})
    reads = [dict(BLANK, op="get", c="A", p=p, t=i, s=j, node=n, via="data") for p in "pq" for i in (-1, 0, 1, 2) for j in (-1, 0, 1, 2)
             for n in ("", "a", "b")]
    reads += [dict(BLANK, op="fits", c="A", p=p, bt=x, bs=y) for p in "pq" for x in (False, True) for y in (False, True)]

    def whole(c):
        ops = [dict(BLANK, **o) for o in c]
        for o in ops:
            o["d"]["n"] = o["d"]["n"] or {}
            for x in o["d"]["n"].values():
                x["n"] = {}
        return {"ops": ops + r.sample(reads, 30)}

    inputs = [whole(c) for c in r.sample(cases, min(len(cases), 1500 if tier == "quick" else 20000))]
    inputs += [{"ops": history(r)} for _ in range(2500 if tier == "quick" else 40000)]
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def run(inp):
    import shutil
    import tempfile
    from pathlib import Path

    import pandas as pd

    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import model
    from andromede.model.parameter import float_parameter
    from andromede.study import DataBase, Network, create_component
    from andromede.study import data as D
    from andromede.study.network import create_node

    sc = {}

    def mk(d):
        z = sc[d["z"]] if d["z"] else None
        if d["k"] == "const":
            return D.ConstantData(unnum(d["v"]))
        if d["k"] == "tser":
            return D.TimeSeriesData({D.TimeIndex(j): unnum(x) for j, x in enumerate(d["v"])})
        if d["k"] == "sser":
            return D.ScenarioSeriesData({D.ScenarioIndex(j): unnum(x) for j, x in enumerate(d["v"])}, z)
        if d["k"] == "tsser":
            df = pd.DataFrame([[unnum(x) for x in row] for row in d["v"]])
            if len(d["v"]) % 2:                    # read by position, whatever the labels
                df.columns = [f"s{j}" for j in range(df.shape[1])]
                df.index = [j + 1 for j in range(df.shape[0])]
            return D.TimeScenarioSeriesData(df, z)
        return D.TreeData({n: mk(x) for n, x in d["n"].items()})

    db = DataBase()
    idx = lambda x: None if x == -1 else x
    tmp = Path(tempfile.mkdtemp())

    def step(op):
        k = op["op"]
        if k == "new":
            sc[op["z"]] = D.Scenarization({})
        elif k == "year":
            sc[op["z"]].add_year(op["y"], op["s"])
        elif k == "add":
            db.add_data(op["c"], op["p"], mk(op["d"]))
        elif k == "get":
            if op["via"] == "db":
                return fine(db.get_value(D.ComponentParameterIndex(op["c"], op["p"]), idx(op["t"]), idx(op["s"])))
            return fine(db.get_data(op["c"], op["p"]).get_value(idx(op["t"]), idx(op["s"]), op["node"]))
        elif k == "fits":
            return bool(db.get_data(op["c"], op["p"]).check_requirement(op["bt"], op["bs"]))
        elif k == "consistent":
            net = Network("n")
            for c in op["comps"]:
                m = model("m", parameters=[float_parameter(p, IndexingStructure(x["t"], x["s"]))
                                           for p, x in c["pars"].items()])
                net.add_node(create_node(m, c["id"])) if c["node"] else net.add_component(create_component(m, c["id"]))
            db.requirements_consistency(net)
        elif k == "series":
            df = pd.DataFrame([[unnum(x) for x in row] for row in op["m"]])
            if op["kind"] == "time":
                s = D.dataframe_to_time_series(df)
                assert sorted(x.time for x in s) == list(range(len(s)))
                return [fine(s[D.TimeIndex(j)]) for j in range(len(s))]
            s = D.dataframe_to_scenario_series(df)
            assert sorted(x.scenario for x in s) == list(range(len(s)))
            return [fine(s[D.ScenarioIndex(j)]) for j in range(len(s))]
        elif k == "file":
            f = tmp / "series.txt"
            if f.exists():
                f.unlink()
            if not op["missing"]:
                f.write_text("\n".join(op["sep"].join(repr(unnum(x)) for x in row) for row in op["m"]) + "\n")
            df = D.load_ts_from_txt("series", tmp)
            return [] if df is None else [[fine(x) for x in row] for row in df.values.tolist()]
        return "done"

    try:
        outs = []
        for op in inp["ops"]:
            o = attempt(step, op)
            outs.append(o if o["k"] == "ok" else {"k": "err"})
        return {"k": "ok", "v": outs}
    finally:
        shutil.rmtree(tmp)
