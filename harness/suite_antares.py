"""Antares studies on disk, converted by the real code; then built with the shipped libraries."""
import random

import systems as Y
from core import attempt, num, unnum

TRACE = "AntaresTrace"
NONE = {"k": "absent", "m": []}
BIG = [0, 1, 2, 3, 4, 5, 7, 10, 12, 100, 2.5]


def matrix(r, H, S, vs=BIG):
    return [[num(r.choice(vs)) for _ in range(S)] for _ in range(H)]


def thermal(r, i, H, S, zero=False):
    count = r.choice([1, 2, 3])
    cap = r.choice([1, 2, 3, 2.5, 4])
    top = [0, 1, 2, 3, 4, 5, 6, 7.5] if not zero else [0]
    if r.random() < 0.2:                     # just above, or below, a number of units
        top = [0, cap, 2 * cap, cap + 1 / 128, 2 * cap - 1 / 128, 2 * cap + 1 / 128]
    return {"id": i, "count": num(count), "cap": num(cap), "minp": num(r.choice([0, 1, 0.5])), "eff": num(r.choice([100, 36, 50])),
            "marg": num(r.choice([0, 1, 22.5])), "fixed": num(r.choice([0, 1, 3])), "start": num(r.choice([0, 1, 10])),
            "up": num(r.choice([1, 2, 3])), "down": num(r.choice([1, 2, 4])),
            "mod": [num(r.choice([0, 0, 0.5, 0.25, 1])) for _ in range(H)], "series": matrix(r, H, S, top)}


def vre(r, H, S, p=0.4):
    if r.random() > p:
        return dict(NONE, k=r.choice(["absent", "empty", "empty"]))
    k = r.random()
    m = [[[0, 1]] * S for _ in range(H)] if k < 0.25 else matrix(r, H, S)
    if 0.25 <= k < 0.4:                      # a single non-zero value
        m = [[[0, 1]] * S for _ in range(H)]
        m[r.randrange(H)][r.randrange(S)] = [-1, 1]
    elif 0.4 <= k < 0.5 and H > 1:           # values which cancel out
        m = [[[0, 1]] * S for _ in range(H)]
        m[0][0], m[1][-1] = [-3, 1], [3, 1]
    return {"k": "data", "m": m}


def study(r, plain):
    """plain: identifiers are distinct and every model is in the shipped libraries."""
    H, S = r.choice([1, 2, 3, 5, 6]), r.choice([1, 1, 2, 3])
    ids = r.sample(["at", "be", "fr", "it"], r.choice([1, 2, 2, 3]))
    bats = list(ids) if r.random() < 0.6 else []
    if r.random() < 0.15:                    # names close to those of the objects of batteries
        ids.append(r.choice(["z_batteries2", "z_batteries_old", "z_bat"]))
    areas, links, bcs = [], [], []
    used = iter(range(100))
    loaded = False
    for a in ids:
        x = {"id": a, "ens": num(r.choice([0, 1, 3000, 0.5])), "spill": num(r.choice([0, 1, 0.5])), "load": NONE, "wind": NONE,
             "solar": NONE, "ren": [], "th": [], "sts": []}
        load = vre(r, H, S, 0.8)
        if not (plain and loaded):
            x["load"] = load
            loaded = loaded or load["k"] == "data"
        if not plain:
            x["wind"], x["solar"] = vre(r, H, S), vre(r, H, S)
        name = lambda base: f"{base}{next(used)}" if plain else base
        for b in r.sample(["gaz", "coal", "old one"], r.choice([0, 1, 1, 2])) + r.choice([[]] * 6 + [[f"{a}_batteries_inj_", f"{a}_batteries_i"]]):
            x["th"].append(thermal(r, name(b) if not b.endswith("_") else b + "old", H, S))
        if not plain:
            for b in r.sample(["sun", "gaz"], r.choice([0, 0, 1, 2])):
                x["ren"].append({"id": b, "count": num(r.choice([1, 2])), "cap": num(r.choice([0, 5, 7.5])), "series": matrix(r, H, S)})
        for b in r.sample(["bat", "pump"], r.choice([0, 0, 1, 2])):
            lo = r.choice([0, 0.25])
            x["sts"].append({"id": name(b), "eff": num(r.choice([1, 0.5, 0.8])), "init": num(r.choice([0.5, 0, 1])),
                             "cap": num(r.choice([0, 10, 4])), "inj": num(r.choice([0, 5, 10])), "wit": num(r.choice([1, 5, 10])),
                             "inflows": matrix(r, H, S, [0, 1, 2]), "lower": matrix(r, H, S, [0, lo]), "upper": matrix(r, H, S, [0.5, 1]),
                             "pinj": matrix(r, H, S, [0, 0.5, 1]), "pwit": matrix(r, H, S, [0, 0.25, 1])})
        areas.append(x)
    pairs = [(a, b) for a in sorted(ids) for b in sorted(ids) if a < b]
    for a, b in pairs:
        if r.random() < 0.6:
            links.append({"from": a, "to": b, "direct": matrix(r, H, S), "indirect": matrix(r, H, S), "cost": matrix(r, H, 1)})
    if bats:
        z = {"id": "z_batteries", "ens": [0, 1], "spill": [1, 1], "load": NONE, "wind": NONE, "solar": NONE, "ren": [], "th": [], "sts": []}
        for a in bats:
            lack = r.choice([""] * 5 + ["tank", "inj", "link", "bc", "term1", "term2", "all"])
            if lack == "all":
                continue
            if lack != "tank":
                z["th"].append(thermal(r, f"z_batteries_batteries_{a}_1", H, S))
            if r.random() < 0.5:
                z["th"].append(thermal(r, f"z_batteries_batteries_{a}_2", H, S))
            if lack != "inj":
                next(x for x in areas if x["id"] == a)["th"].append(thermal(r, f"{a}_batteries_inj", H, S))
            if lack != "link":
                links.append({"from": a, "to": "z_batteries", "direct": matrix(r, H, S, [1, 2, 4, 5]), "indirect": matrix(r, H, S),
                              "cost": matrix(r, H, 1)})
            if lack != "bc":
                terms = []
                if lack != "term1":
                    terms.append({"key": f"{a}%z_batteries", "w": num(r.choice([-0.5, -0.8, -1, 1]))})
                if lack != "term2" and lack != "inj":
                    terms.append({"key": f"{a}.{a}_batteries_inj", "w": num(r.choice([0.5, 0.8, 1]))})
                bcs.append({"id": f"batteries_{a}", "terms": terms})
        areas.append(z)
    r.shuffle(areas)
    T = r.randint(1, min(H, 4)) if plain else 0
    via = r.choice(["study", "path", "study", "path", "cli", "conf", "both"])
    period = r.choice([0, 0, 1, 2, 3, 4])
    return {"st": {"areas": areas, "links": links, "bcs": bcs, "period": period if via in ("study", "path") else 0},
            "T": T, "S": r.randint(1, S), "ids": plain, "case": "", "via": via,
            "out": r.choice(["object", "yaml", "yaml twice"]), "H": H, "W": S, "ints": r.random() < 0.5}


def weeks(r, H, period):
    """A cluster over more than a week: the number of hours of a period matters."""
    th = thermal(r, "gaz", H, 1)
    th["series"] = [[num(r.choice([0, 1, 2, 3, 4]))] for _ in range(H)]
    a = {"id": "fr", "ens": [0, 1], "spill": [1, 1], "load": NONE, "wind": NONE, "solar": NONE, "ren": [], "th": [th], "sts": []}
    return {"st": {"areas": [a], "links": [], "bcs": [], "period": period}, "T": 0, "S": 1, "ids": True, "case": "",
            "via": "study", "out": "object", "H": H, "W": 1, "ints": r.random() < 0.5}


def fixed():
    """Inputs of the recorded findings: identifiers of the converted components."""
    def area(i, **k):
        return dict({"id": i, "ens": [0, 1], "spill": [1, 1], "load": NONE, "wind": NONE, "solar": NONE, "ren": [], "th": [], "sts": []}, **k)
    ser = {"k": "data", "m": [[[3, 1]], [[4, 1]]]}
    r = random.Random(5)
    ren = {"id": "sun", "count": [1, 1], "cap": [5, 1], "series": [[[1, 1]], [[2, 1]]]}
    cases = {"wind": [area("fr", wind=ser)], "solar": [area("fr", solar=ser)],
             "two loads": [area("fr", load=ser), area("it", load={"k": "data", "m": [[[1, 1]], [[4, 1]]]})],
             "same name": [area("fr", th=[thermal(r, "gaz", 2, 1)]), area("it", th=[thermal(r, "gaz", 2, 1)])],
             "renewable": [area("fr", ren=[ren])]}
    return [{"st": {"areas": v, "links": [], "bcs": [], "period": 0}, "T": 2 if k == "renewable" else 0, "S": 1, "ids": True, "case": k,
             "via": "study", "out": "object", "H": 2, "W": 1, "ints": False} for k, v in cases.items()]


def gen(tier, seed):
    r = random.Random(seed * 104729 + 5)
    n = 260 if tier == "quick" else 1500
    out = fixed() + [study(r, j % 2 == 0) for j in range(n)]
    out += [weeks(r, H, p) for H, p in ((168, 0), (180, 0), (340, 0), (30, 24), (180, 170), (400, 200), (200, 168))]
    return out, {"gen_states": 0, "gen_transitions": 0}


SERIES = ("thermal", "renewables", "links", "st-storage", "load", "wind", "solar")


def write(path, m, ints=False):
    path.parent.mkdir(parents=True, exist_ok=True)
    show = lambda v: str(v[0]) if ints and v[1] == 1 else repr(unnum(v))
    path.write_text("".join("\t".join(show(v) for v in row) + "\n" for row in m))


def create(inp, tmp):
    from antares.craft.model.area import AreaProperties
    from antares.craft.model.binding_constraint import ClusterData, ConstraintTerm, LinkData
    from antares.craft.model.renewable import RenewableClusterProperties
    from antares.craft.model.st_storage import STStorageProperties
    from antares.craft.model.study import create_study_local
    from antares.craft.model.thermal import ThermalClusterProperties

    st = inp["st"]
    put = lambda p, m: write(p, m, inp["ints"])
    s = create_study_local("st", "880", tmp)
    root = tmp / "st" / "input"
    f = unnum
    for a in st["areas"]:
        s.create_area(a["id"], properties=AreaProperties(energy_cost_spilled=f(a["spill"]), energy_cost_unsupplied=f(a["ens"])))
        x = s.get_areas()[a["id"]]
        for k in ("load", "wind", "solar"):
            p = root / k / "series" / f"{k}_{a['id']}.txt"
            if a[k]["k"] == "data":
                put(p, a[k]["m"])
            elif a[k]["k"] == "absent":
                p.unlink(missing_ok=True)
            else:
                p.write_text("")
        for t in a["th"]:
            x.create_thermal_cluster(t["id"], ThermalClusterProperties(
                unit_count=int(f(t["count"])), nominal_capacity=f(t["cap"]), min_stable_power=f(t["minp"]), efficiency=f(t["eff"]),
                marginal_cost=f(t["marg"]), fixed_cost=f(t["fixed"]), startup_cost=f(t["start"]),
                min_up_time=int(f(t["up"])), min_down_time=int(f(t["down"]))))
            put(root / "thermal" / "series" / a["id"] / t["id"] / "series.txt", t["series"])
            put(root / "thermal" / "prepro" / a["id"] / t["id"] / "modulation.txt", [[[1, 1], [1, 1], [1, 1], v] for v in t["mod"]])
        for n in a["ren"]:
            x.create_renewable_cluster(n["id"], RenewableClusterProperties(unit_count=int(f(n["count"])), nominal_capacity=f(n["cap"])))
            put(root / "renewables" / "series" / a["id"] / n["id"] / "series.txt", n["series"])
        for b in a["sts"]:
            x.create_st_storage(b["id"], properties=STStorageProperties(
                efficiency=f(b["eff"]), initial_level=f(b["init"]), reservoir_capacity=f(b["cap"]),
                injection_nominal_capacity=f(b["inj"]), withdrawal_nominal_capacity=f(b["wit"])))
            d = root / "st-storage" / "series" / a["id"] / b["id"]
            for n, k in (("inflows", "inflows"), ("lower-rule-curve", "lower"), ("upper-rule-curve", "upper"),
                         ("PMAX-injection", "pinj"), ("PMAX-withdrawal", "pwit")):
                put(d / f"{n}.txt", b[k])
    for l in st["links"]:
        s.create_link(area_from=l["from"], area_to=l["to"])
        d = root / "links" / l["from"]
        put(d / "capacities" / f"{l['to']}_direct.txt", l["direct"])
        put(d / "capacities" / f"{l['to']}_indirect.txt", l["indirect"])
        put(d / f"{l['to']}_parameters.txt", [row + [[0, 1]] * 5 for row in l["cost"]])
    for b in st["bcs"]:
        terms = []
        for t in b["terms"]:
            if "%" in t["key"]:
                p, q = t["key"].split("%")
                terms.append(ConstraintTerm(weight=f(t["w"]), offset=0, data=LinkData(area1=p, area2=q)))
            else:
                p, q = t["key"].split(".")
                terms.append(ConstraintTerm(weight=f(t["w"]), offset=0, data=ClusterData(area=p, cluster=q)))
        s.create_binding_constraint(name=b["id"], terms=terms)
    return s, tmp / "st"


def contents(v):
    from pathlib import Path
    p = Path(v + ".txt")
    return [[num(x) for x in line.split("\t")] for line in p.read_text().splitlines()]


def describe(system):
    def comp(c):
        return {"id": c.id, "model": c.model,
                "pars": [{"id": p.id, "t": p.time_dependent, "s": p.scenario_dependent,
                          "v": ({"k": "file", "v": [0, 1], "m": contents(p.value)} if isinstance(p.value, str)
                                else {"k": "num", "v": num(p.value), "m": []})} for p in c.parameters or []]}
    return {"nodes": [comp(c) for c in system.nodes], "comps": [comp(c) for c in system.components],
            "conns": [{"c1": k.component1, "p1": k.port1, "c2": k.component2, "p2": k.port2} for k in system.connections]}


def build(system, where, T, S):
    import suite_shipped as SH
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.resolve_components import build_data_base, build_network, resolve_system

    yl = []
    for f in SH.LIBS["antares"]:
        with SH.repo_lib(f).open() as h:
            yl.append(parse_yaml_library(h))
    net = build_network(resolve_system(system, resolve_library(yl)))
    pb = build_problem(net, build_data_base(system, where), TimeBlock(1, list(range(T))), S)
    return Y.observe_solver(pb.solver)


def run(inp):
    import contextlib
    import io
    import logging
    import shutil
    import tempfile
    from pathlib import Path

    from andromede.input_converter.src.converter import AntaresStudyConverter
    from andromede.study.parsing import parse_yaml_components

    tmp = Path(tempfile.mkdtemp())
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            study, path = create(inp, tmp)

        def command():
            """The command line: the study, and the folder of the result, from options or the configuration file."""
            import runpy
            import sys
            conf, out = tmp / "conf.ini", tmp / "out"
            out.mkdir()
            aside = inp["T"] % 2
            lines, argv = ["[study]"], ["main", "-c", str(conf), "-l", str(tmp / "conv.log")]
            if inp["via"] == "cli":
                lines = lines[:len(inp["st"]["areas"]) % 2]
                argv += ["-i", str(path)] + ["-o", str(out)] * aside
            else:
                lines += [f"study_path = {path}", "output_path =" + (f" {out}" if aside else "")]
                if inp["via"] == "both":
                    lines[1:] = ["study_path = /nowhere", f"output_path = {tmp if aside else ''}"]
                    argv += ["--study_path", str(path)] + ["--output_path", str(out)] * aside
            conf.write_text("\n".join(lines) + "\n")
            old = sys.argv, list(logging.getLogger().handlers)
            sys.argv = argv
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    runpy.run_module("andromede.input_converter.src.main", run_name="__main__")
            except SystemExit:
                raise RuntimeError
            finally:
                sys.argv = old[0]
                logging.getLogger().handlers[:] = old[1]
            with ((out if aside else path) / "output.yaml").open() as h:
                return parse_yaml_components(h)

        def convert():
            if inp["via"] in ("cli", "conf", "both"):
                return finish(command())
            log = logging.getLogger("none")
            log.disabled = True
            conv = AntaresStudyConverter(study_input=study if inp["via"] == "study" else path, logger=log,
                                         output_path=tmp / "out.yaml" if inp["T"] % 2 else None, period=inp["st"]["period"] or None)
            if inp["out"] == "object":
                system = conv.convert_study_to_input_study()
            else:
                if inp["out"] == "yaml twice":
                    # an earlier conversion, when the study had other series
                    then = {p: p.read_text() for k in SERIES for p in (path / "input" / k).rglob("*.txt") if p.stat().st_size}
                    for p, txt in then.items():
                        p.write_text("".join("\t".join("1" for _ in row.split("\t")) + "\n" for row in txt.splitlines()))
                    conv.process_all()
                    for p, txt in then.items():
                        p.write_text(txt)
                conv.process_all()
                with (tmp / "out.yaml" if inp["T"] % 2 else path / "output.yaml").open() as h:
                    system = parse_yaml_components(h)
            return finish(system)

        def finish(system):
            d = describe(system)
            d["pb"] = attempt(build, system, path, inp["T"], inp["S"]) if inp["T"] else {"k": "none", "v": ""}
            return d

        return attempt(convert)
    finally:
        shutil.rmtree(tmp)
