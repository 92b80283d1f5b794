"""Study files (libraries, system, series, scenario builder), through the API and the command line."""
import json
import random

from core import attempt, num, unnum
import suite_library as SL
import systems as Y
import texts as T

TRACE = "StudyTrace"
H, NY = 5, 3


def textual(name, m):
    flag = lambda b: "yes" if b else "no"
    opt = lambda e: [] if e["k"] == "none" or (e["k"] == "lit" and e["v"][1] == 0) else T.toks(e)
    cons = [{"id": c["name"], "e": T.toks(c["e"]), "lb": opt(c["lb"]), "ub": opt(c["ub"])} for c in m["cons"]]
    return {"id": name, "odd": "",
            "pars": [{"id": p, "t": flag(x["t"]), "s": flag(x["s"])} for p, x in m["pars"].items()],
            "vars": [{"id": v, "t": flag(x["t"]), "s": flag(x["s"]), "lb": opt(x["lb"]), "ub": opt(x["ub"]),
                      "type": x["type"]} for v, x in m["vars"].items()],
            "ports": [{"id": p, "type": t} for p, t in m["ports"].items()],
            "pfd": [{"port": d["p"], "field": d["f"], "def": T.toks(d["e"])} for d in m["pfd"]],
            "bcons": cons[1::3], "cons": [c for j, c in enumerate(cons) if j % 3 != 1],
            "obj": opt(m["objop"])}


def texts_ok(m):
    es = [x for v in m["vars"].values() for x in (v["lb"], v["ub"])] + [x for c in m["cons"] for x in (c["e"], c["lb"], c["ub"])]
    es += [d["e"] for d in m["pfd"]] + [m["objop"]]
    return all(e["k"] == "none" or (e["k"] == "lit" and e["v"][1] == 0) or SL.ok_text(e) for e in es)


def random_study(r):
    while True:
        sys = Y.random_system(r, H, NY)
        if all(texts_ok(m) for m in sys["models"].values()):
            break
    if r.random() < 0.2:                          # names that differ by their case only
        sys["models"] = {"M0" if m == "m1" else m: v for m, v in sys["models"].items()}
        for c in sys["comps"]:
            c["model"] = "M0" if c["model"] == "m1" else c["model"]
    ext = r.choice(["ext", "ext", "Ext", "BASE"])
    home = {m: r.choice(["base", ext]) for m in sys["models"]}
    libs = {"base": {}, ext: {}}
    for n, m in sys["models"].items():
        for v in m["vars"].values():
            v["ctx"] = "OPERATIONAL"
            v["type"] = "integer" if v["type"] == "boolean" else v["type"]
        for c in m["cons"]:
            c["ctx"] = "OPERATIONAL"
        m["objinv"] = {"k": "none"}
        libs[home[n]][n] = m
    files = {}
    groups = ["g1", "g2"]

    def par(p, st):
        t, s = r.choice([(t, s) for t in (False, True) for s in (False, True) if t <= st["t"] and s <= st["s"]])
        if r.random() < 0.006:
            t, s = True, True
        x = {"id": p, "t": t, "s": s, "group": r.choice(groups) if s and r.random() < 0.4 else ""}
        if p == "k":
            x["v"] = {"k": "num", "v": num(r.choice([0, 1, 2, -1, 3]))}
        elif not t and not s:
            x["v"] = {"k": "num", "v": num(r.choice(Y.VALS))}
        else:
            n = r.choice(["load", "wind", "s.1", "a-b", "x_y"]) + str(len(files))
            rows, cols = (H if t else 1), (NY if s else 1)
            files[n] = [[num(r.choice(Y.VALS)) for _ in range(cols)] for _ in range(rows)]
            x["v"] = {"k": "file", "n": n}
        if r.random() < 0.006:
            x["v"] = r.choice([{"k": "num", "v": [1, 1]}, {"k": "file", "n": "gone"}])
        if r.random() < 0.006 and files:
            x["v"] = {"k": "file", "n": r.choice(list(files))}
        return x

    def comp(c):
        m = sys["models"][c["model"]]
        pars = [par(p, st) for p, st in m["pars"].items()]
        if pars and r.random() < 0.03:
            pars.append(par(pars[0]["id"], m["pars"][pars[0]["id"]]))      # given twice
        if r.random() < 0.05:
            pars.append({"id": "unused", "t": False, "s": False, "group": "", "v": {"k": "num", "v": [9, 1]}})
        return {"id": c["id"], "lib": home[c["model"]], "model": c["model"], "dots": 1,
                "group": r.choice(["", "g1", "g2"]), "pars": pars}

    nodes = [comp(c) for c in sys["comps"] if c["node"]]
    comps = [comp(c) for c in sys["comps"] if not c["node"]]
    conns = list(sys["conns"])
    x = r.random()
    allc = nodes + comps
    if x < 0.02:
        r.choice(allc)["lib"] = r.choice(["base", ext, "gone"])
    elif x < 0.03:
        r.choice(allc)["model"] = "m9"
    elif x < 0.04:
        r.choice(allc)["dots"] = r.choice([0, 2, 3])
    elif x < 0.06:
        # an identifier given twice
        again = json.loads(json.dumps(r.choice(allc)))
        r.choice([nodes, comps, comps]).insert(r.randrange(2), again)
    elif x < 0.12 and conns:
        k = r.randrange(len(conns))
        conns[k] = dict(conns[k], **r.choice([{"c1": "ZZ"}, {"c2": "ZZ"}, {"c1": "ZZ", "c2": "ZZ"}, {"p1": "zz"}, {"c2": r.choice(allc)["id"]}, {"p2": "pb"}]))
    builder = [{"g": g, "y": y, "s": r.randrange(NY)} for g in groups for y in range(NY)]
    x = r.random()
    if x < 0.03:
        builder = [b for b in builder if b["g"] != "g2"]
    elif x < 0.05:
        builder.append(dict(r.choice(builder)))
    if r.random() < 0.5:
        r.shuffle(builder)
    return {"libs": libs, "ptypes": sys["ptypes"], "nodes": nodes, "comps": comps, "conns": conns, "files": files,
            "hasdir": r.random() < 0.98, "scenarized": False, "builder": builder}


def one_wrong_parameter(r, st):
    """Exactly one parameter is given in a form that its flags do not allow."""
    ps = [p for c in st["nodes"] + st["comps"] for p in c["pars"] if p["id"] not in ("k", "unused")]
    if not ps:
        return
    p = r.choice(ps)
    v = lambda: num(r.choice(Y.VALS))
    how = r.choice(["text", "text", "number", "number", "gone", "wide", "tall", "garbled", "garbled"])
    p["group"] = ""
    if how == "text":
        p["t"], p["s"] = False, False
        st["files"]["odd"] = r.choice([[[v()]], [[v(), v(), v()]], [[v()] for _ in range(H)]])
        p["v"] = {"k": "file", "n": "odd"}
    elif how == "number":
        p["t"], p["s"] = r.choice([(True, False), (False, True), (True, True)])
        p["v"] = {"k": "num", "v": v()}
    elif how == "gone":
        p["t"], p["s"] = r.choice([(True, False), (False, True), (True, True)])
        p["v"] = {"k": "file", "n": "gone"}
    elif how == "garbled":
        # a file that holds something else than numbers is as good as none
        p["t"], p["s"] = r.choice([(True, False), (False, True)])
        p["v"] = {"k": "file", "n": "gone"}
        bad = r.choice(["1,5", "abc", "1;2", "1.5.2", "1 #2", "1O"] if p["t"] else ["1,5", "abc", "1;2", "1.5.2", "1O"])
        st["garbled"] = [bad] + ["2"] * (H - 1) if p["t"] else [" ".join(["2"] * (NY - 1) + [bad])]
        if bad == "1 #2":
            st["garbled"] = [bad] * H
    elif how == "wide":
        p["t"], p["s"] = True, False
        st["files"]["odd"] = [[v() for _ in range(r.choice([2, NY]))] for _ in range(H)]
        p["v"] = {"k": "file", "n": "odd"}
    else:
        p["t"], p["s"] = False, True
        st["files"]["odd"] = [[v() for _ in range(NY)] for _ in range(r.choice([2, H]))]
        p["v"] = {"k": "file", "n": "odd"}


def gen(tier, seed):
    r = random.Random(seed * 271 + 17)
    inputs = []
    for _ in range(1500 if tier == "quick" else 12000):
        st = random_study(r)
        if r.random() < 0.08:
            one_wrong_parameter(r, st)
        via = r.choice(["api", "scen", "scen", "cli", "cli"])
        cli = {"wrong": "", "layout": ""}
        if via == "cli":
            n, S = r.choice([1, 1, 2, 3, H]), r.choice([1, 1, 2, 3])
            req = {"block": list(range(n)), "S": S, "strat": "merged", "risk": [1, 1], "tree": "", "full": True}
            cli["layout"] = r.choice(["study", "parts"])
            st["hasdir"] = True
            if cli["layout"] == "parts" and not st["files"]:
                st["hasdir"] = r.random() < 0.5
            if r.random() < 0.1:
                cli["wrong"] = r.choice(["both", "both models", "both component", "both timeseries", "nothing", "models", "component", "twice", "twice"])
        else:
            st["scenarized"] = via == "scen"
            n = r.choice([1, 2, 3])
            s = r.randrange(H - n + 1)
            req = {"block": list(range(s, s + n)), "S": r.choice([1, 2, 3]), "strat": "merged", "risk": [1, 1], "tree": "",
                   "full": True}
        inputs.append({"st": st, "req": req, "via": via, "cli": cli, "ext": r.choice([".yml"] * 5 + [".yaml"]), "snake": r.random() < 0.2, "spaces": r.random() < 0.5,
                       "numbers": r.random() < 0.5, "omit": r.random() < 0.5})
    return inputs, {}


def documents(inp):
    st = inp["st"]
    key = lambda k: k.replace("-", "_") if inp["snake"] else k

    def comp(c):
        model = {0: c["model"], 1: c["lib"] + "." + c["model"], 2: c["lib"] + "." + c["model"] + ".x",
                 3: "x." + c["lib"] + "." + c["model"]}[c["dots"]]
        d = {"id": c["id"], "model": model}
        if c["group"]:
            d[key("scenario-group")] = c["group"]
        if c["pars"] or not inp["omit"]:
            d["parameters"] = []
        for p in c["pars"]:
            x = {"id": p["id"]}
            for k, n in (("t", "time-dependent"), ("s", "scenario-dependent")):
                if p[k] or not inp["omit"]:
                    x[key(n)] = p[k]
            if p["v"]["k"] == "num":
                v = unnum(p["v"]["v"])
                x["value"] = int(v) if v == int(v) and inp["numbers"] else v
            else:
                x["value"] = p["v"]["n"]
            if p["group"]:
                x[key("scenario-group")] = p["group"]
            d["parameters"].append(x)
        return d

    sysd = {"nodes": [comp(c) for c in st["nodes"]], "components": [comp(c) for c in st["comps"]],
            "connections": [{"component1": k["c1"], "port1": k["p1"], "component2": k["c2"], "port2": k["p2"]}
                            for k in st["conns"]]}
    if inp["omit"]:
        sysd = {k: v for k, v in sysd.items() if v}
    libs = []
    for l in st["libs"]:
        doc = {"id": l, "odd": "", "deps": [] if l == "base" else ["base"],
               "ptypes": [{"id": t, "fields": f} for t, f in st["ptypes"].items()] if l == "base" else [],
               "models": [textual(n, m) for n, m in st["libs"][l].items()]}
        libs.append(SL.document(doc, inp))
    return libs, {"system": sysd}


def run(inp):
    import contextlib
    import io
    import os
    import shutil
    import sys
    import tempfile
    from pathlib import Path

    import yaml
    from ortools.linear_solver import pywraplp

    import andromede.main.main as MAIN
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_scenario_builder, parse_yaml_components
    from andromede.study.resolve_components import (build_data_base, build_network, build_scenarized_data_base,
                                                    consistency_check, resolve_system)

    st, q = inp["st"], inp["req"]
    libs, sysd = documents(inp)
    tmp = Path(tempfile.mkdtemp())
    try:
        root = tmp / "study" / "input"
        for d in ("models", "components/series"):
            (root / d).mkdir(parents=True)
        paths = []
        for j, l in enumerate(libs):
            paths.append(root / "models" / (f"lib{j}" + inp["ext"]))
            paths[-1].write_text(yaml.safe_dump(l, sort_keys=False))
        if inp["cli"]["wrong"] == "twice":
            paths.append(root / "models" / ("again" + inp["ext"]))
            shutil.copy(paths[len(st["files"]) % len(libs)], paths[-1])
        system = root / "components" / "components.yml"
        system.write_text(yaml.safe_dump(sysd, sort_keys=False))
        series = root / "components" / "series"
        for n, m in st["files"].items():
            (series / f"{n}.txt").write_text("\n".join(" ".join(repr(unnum(x)) for x in row) for row in m) + "\n")
        sb = tmp / "scenariobuilder.dat"
        if "garbled" in st:
            (series / "gone.txt").write_text("\n".join(st["garbled"]) + "\n")
        sb.write_text("".join(f"{b['g']},{b['y']},{b['s']}\n" for b in st["builder"]))
        where = series if st["hasdir"] else None

        def api():
            lib = MAIN.input_libs(paths)
            with system.open() as f:
                ic = parse_yaml_components(f)
            s = resolve_system(ic, lib)
            models = {}
            for x in lib.values():
                models.update(x.models)
            if consistency_check(s.components, models) is not True:
                return {"vars": [], "rows": [], "obj": {"c": [0, 0], "m": [], "min": True}, "solves": 1, "report": False,
                        "nodes": [], "comps": [], "all": []}
            if s.components:      # a component whose model is not in the given models is reported
                used = next(iter(s.components.values())).model.id
                assert attempt(consistency_check, s.components, {k: v for k, v in models.items() if k != used})["k"] == "err"
            net = build_network(s)
            if inp["via"] == "scen":
                db = build_scenarized_data_base(ic, parse_scenario_builder(sb), where)
            else:
                db = build_data_base(ic, where)
            pb = build_problem(net, db, TimeBlock(1, q["block"]), q["S"])
            return dict(Y.observe_solver(pb.solver), solves=1, report=True, nodes=sorted(x.id for x in net.nodes),
                        comps=sorted(x.id for x in net.components), all=sorted(x.id for x in net.all_components))

        def cli():
            args = ["andromede"]
            wrong = inp["cli"]["wrong"]
            if inp["cli"]["layout"] == "study" or wrong == "both":
                args += ["--study", str(tmp / "study")]
            if inp["cli"]["layout"] == "parts" or wrong == "both":
                if wrong != "models":
                    args += ["--models", *map(str, paths)]
                if wrong != "component":
                    args += ["--component", str(system)]
                if where:
                    args += ["--timeseries", str(series)]
            if wrong == "nothing":
                args = ["andromede"]
            elif wrong.startswith("both "):
                args = ["andromede", "--study", str(tmp / "study"), "--" + wrong[5:],
                        {"models": str(paths[0]), "component": str(system), "timeseries": str(series)}[wrong[5:]]]
            elif wrong == "models":
                args = ["andromede", "--component", str(system)]
            elif wrong == "component":
                args = ["andromede", "--models", *map(str, paths)]
            if len(q["block"]) > 1:
                args += ["--duration", str(len(q["block"]))]
            if q["S"] > 1:
                args += ["--scenario", str(q["S"])]
            seen, end, out = [], [], io.StringIO()
            plain = pywraplp.Solver.Solve

            def solve(self, *a):
                seen.append(Y.observe_solver(self))
                status = plain(self, *a)
                end.append((status, self.Objective().Value()))
                return status

            old = sys.argv
            pywraplp.Solver.Solve = solve
            sys.argv = args
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    MAIN.main_cli()
            except SystemExit:
                raise ValueError("exit")
            finally:
                pywraplp.Solver.Solve = plain
                sys.argv = old
            words = out.getvalue().split()
            status, cost = end[-1]
            return dict(seen[-1], solves=len(seen), report=str(status) in words and str(cost) in words, nodes=[], comps=[], all=[])

        return attempt(cli if inp["via"] == "cli" else api)
    finally:
        shutil.rmtree(tmp)
