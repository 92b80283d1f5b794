"""PyPSA networks converted by the real converter, then built with the shipped library.

The pypsa package is not needed by the converter beyond its tables, so a stand-in with the
same tables (data frames per kind of component, and frames of series) is converted."""
import random

import suite_shipped as SH
import systems as Y
from core import attempt, fine, num, unnum

TRACE = "PyPSATrace"
KINDS = {"generator": "generators", "load": "loads", "bus": "buses", "link": "links", "storage_unit": "storage_units",
         "store": "stores"}
SHIP = {"load": "pload", "link": "plink"}
CAPA = {"generator": "p_nom", "link": "p_nom", "storage_unit": "p_nom", "store": "e_nom"}
LIMITS = {"generator": ["quadratic", "inactive", "committable"], "load": ["inactive"], "link": ["inactive", "quadratic", "committable"],
          "storage_unit": ["inactive", "sign", "acyclic", "quadratic"], "store": ["inactive", "sign", "acyclic", "quadratic"]}
OUTPUTS = {"generator": ["p", "q", "p_set", "mu_upper"], "load": ["p", "q"], "bus": ["p", "marginal_price"], "link": ["p0", "p1"],
           "storage_unit": ["p", "state_of_charge", "spill"], "store": ["p", "e"]}


def item(r, kind, j, buses, carriers, T):
    names = [f"{kind[:2]}{j}", f"{kind[:2]} {j} x", f"{j}.{kind[:1]}"]
    x = {"id": r.choice(names), "kind": kind, "buses": [], "carrier": "", "ext": False, "nom": [0, 1], "pars": {}, "series": {}}
    if kind == "bus":
        x["id"] = r.choice([f"bus{j}", f"DE{j} 0"])
    else:
        x["buses"] = [r.choice(buses) for _ in range(2 if kind == "link" else 1)]
    if kind in CAPA:
        x["carrier"] = r.choice(carriers + ["", "unknown"] * 2 + [" "])
        x["ext"] = r.random() < 0.5
        x["nom"] = num(r.choice([0, 1, 4, 7, 100]))
    for p, (t, _, vs) in SH.MODELS[SHIP.get(kind, kind)][1].items():
        if p == "emission_factor":
            continue
        if p in ("e_sum_min", "e_sum_max") and r.random() < 0.4:
            x["pars"][p] = [-1, 0] if p == "e_sum_min" else [1, 0]
        else:
            x["pars"][p] = SH.number(r, vs)
        if t and r.random() < 0.4:
            x["series"][p] = [SH.number(r, vs) for _ in range(T)]
    return x


def network(r, bad):
    T = r.randint(1, 4)
    carriers = [{"id": c, "co2": num(r.choice([0, 0.25, 0.5, 2]))} for c in r.sample(["gas", "coal", "wind", "AC"], r.randint(1, 3))]
    items = [item(r, "bus", j, [], [], T) for j in range(r.randint(1, 3))]
    buses = [b["id"] for b in items]
    pool = ["generator", "generator", "load", "link", "storage_unit", "store"]
    for j in range(r.randint(1, 6)):
        items.append(item(r, r.choice(pool), j, buses, [c["id"] for c in carriers], T))
    gcs = [{"id": f"co2 {j}", "type": "primary_energy", "attr": "co2_emissions", "sense": r.choice(["<=", "=="]), "quota": num(r.choice([0, 3, 10.5, -2]))}
           for j in range(r.choice([0, 0, 1, 2]))]
    limits = []
    if bad:
        kinds = [x["kind"] for x in items if x["kind"] in LIMITS]
        what = r.choice(["component", "component", "component", "periods", "weights", "lines", "transformers", "column", "gc"])
        if what == "component":
            k = r.choice(kinds)
            limits = [[k, r.choice(LIMITS[k]), r.choice([x["id"] for x in items if x["kind"] == k])]]
        elif what == "gc":
            g = {"id": "bad", "type": "primary_energy", "attr": "co2_emissions", "sense": "<=", "quota": [3, 1]}
            k, v = r.choice([("type", "transmission_volume_expansion_limit"), ("attr", "other"), ("sense", ">="), ("type", "tech_capacity_expansion_limit"),
                             ("type", "operational_limit"), ("type", "transmission_expansion_cost_limit"), ("sense", "="), ("sense", "<"), ("attr", "")])
            g[k] = v
            gcs.insert(r.randint(0, len(gcs)), g)
        elif what == "column":
            k = r.choice(kinds + ["bus"])
            limits = [[k, "column", r.choice(sorted(p for p in SH.MODELS[SHIP.get(k, k)][1] if p not in ("emission_factor",)
                                                  and not (k in CAPA and p.startswith(CAPA[k] + "_m")) and p != "capital_cost"))]]
        else:
            limits = [[what, "", ""]]
    r.shuffle(items)
    r.shuffle(carriers)
    return {"net": {"name": r.choice(["Demo", "net 2", ""]), "T": T, "items": items, "carriers": carriers, "gcs": gcs, "limits": limits},
            "S": r.randint(1, 2), "odd": r.choice([0, 1, 2]), "out": r.choice(["object", "yaml", "twice"]), "noise": r.randint(0, 10 ** 6)}


def precise(r, inp):
    """Numbers with many digits: only the converted system is looked at."""
    few = [3.14159, 0.000125, 1.00001, 123456.5, 0.1234567, -2.000001, 1e-7]
    v = lambda: fine(r.choice(few))
    inp["S"] = 0
    for x in inp["net"]["items"]:
        x["nom"] = v()
        x["pars"] = {p: v() if p != "sign" else y for p, y in x["pars"].items()}
        x["series"] = {p: [v() for _ in y] for p, y in x["series"].items()}
    for c in inp["net"]["carriers"]:
        c["co2"] = v()
    for g in inp["net"]["gcs"]:
        g["quota"] = v()
    return inp


def one_limit(r, kind, limit, at):
    """Three components of a kind, exactly one of which is out of the supported perimeter."""
    inp = network(r, False)
    x = inp["net"]
    buses = [i["id"] for i in x["items"] if i["kind"] == "bus"]
    x["items"] = [i for i in x["items"] if i["kind"] != kind]
    mine = [item(r, kind, j, buses, [c["id"] for c in x["carriers"]], x["T"]) for j in (6, 7, 8)]
    x["items"] += mine
    x["limits"] = [[kind, limit, mine[at]["id"]]]
    return inp


def gen(tier, seed):
    r = random.Random(seed * 15485863 + 3)
    n = 600 if tier == "quick" else 4000
    every = [one_limit(r, k, l, at) for k in LIMITS for l in LIMITS[k] for at in (0, 1, 2)]
    every += [precise(r, network(r, False)) for _ in range(n // 10)]
    return every + [network(r, j % 4 == 3) for j in range(n)], {"gen_states": 0, "gen_transitions": 0}


class Fake:
    """The tables of a pypsa.Network which the converter reads."""

    def __init__(self, inp):
        import numpy as np
        import pandas as pd

        net, r = inp["net"], random.Random(inp["noise"])
        T = net["T"]
        limits = net["limits"]
        self.name = net["name"]
        self.investment_periods = pd.Index([2030] if ["periods", "", ""] in limits else [])
        odd = inp["odd"]
        w = [2.0, 0.5, 3.0][odd] if ["weights", "", ""] in limits else 1.0
        self.snapshot_weightings = pd.DataFrame({"objective": [1.0] * T, "stores": [1.0] * T, "generators": [1.0] * T})
        self.snapshot_weightings.iloc[T - 1 if odd else 0, odd] = w
        self.lines = pd.DataFrame({"bus0": ["a"]} if ["lines", "", ""] in limits else {"bus0": []})
        self.transformers = pd.DataFrame({"bus0": ["a"]} if ["transformers", "", ""] in limits else {"bus0": []})
        self.carriers = pd.DataFrame({"co2_emissions": [unnum(c["co2"]) for c in net["carriers"]],
                                      "color": ["" for _ in net["carriers"]], "max_growth": [float("inf") for _ in net["carriers"]]},
                                     index=pd.Index([c["id"] for c in net["carriers"]], dtype=object, name="Carrier"))
        self.global_constraints = pd.DataFrame(
            {"type": [g["type"] for g in net["gcs"]], "carrier_attribute": [g["attr"] for g in net["gcs"]],
             "sense": [g["sense"] for g in net["gcs"]], "constant": [unnum(g["quota"]) for g in net["gcs"]]},
            index=pd.Index([g["id"] for g in net["gcs"]], dtype=object))
        for kind, table in KINDS.items():
            items = [x for x in net["items"] if x["kind"] == kind]
            cols = {}
            for p in SH.MODELS[SHIP.get(kind, kind)][1]:
                if p != "emission_factor":
                    cols[p] = np.array([unnum(x["pars"][p]) for x in items], dtype=float)
            cols["active"] = np.array([True] * len(items), dtype=bool)
            cols["carrier"] = np.array([x["carrier"] for x in items], dtype=object)
            cols["marginal_cost_quadratic"] = np.zeros(len(items))
            cols["committable"] = np.array([False] * len(items), dtype=bool)
            cols["cyclic_state_of_charge"] = np.array([True] * len(items), dtype=bool)
            cols["e_cyclic"] = np.array([True] * len(items), dtype=bool)
            if kind == "link":
                cols["bus0"] = np.array([x["buses"][0] for x in items], dtype=object)
                cols["bus1"] = np.array([x["buses"][1] for x in items], dtype=object)
            elif kind != "bus":
                cols["bus"] = np.array([x["buses"][0] for x in items], dtype=object)
            if kind in CAPA:
                cols[CAPA[kind]] = np.array([unnum(x["nom"]) for x in items], dtype=float)
                cols[CAPA[kind] + "_extendable"] = np.array([x["ext"] for x in items], dtype=bool)
            for k, what, who in limits:
                if k != kind:
                    continue
                if what == "column":
                    del cols[who]
                    continue
                at = [x["id"] for x in items].index(who)
                col, v = {"quadratic": ("marginal_cost_quadratic", [0.5, -0.25, 1e-6][odd]), "inactive": ("active", False), "committable": ("committable", True),
                          "sign": ("sign", [-1.0, 0.5, 2.0][odd]), "acyclic": ("e_cyclic" if kind == "store" else "cyclic_state_of_charge", False)}[what]
                cols[col][at] = v
            names = sorted(cols)
            r.shuffle(names)
            ids = pd.Index([x["id"] for x in items], dtype=object, name=kind.capitalize())
            setattr(self, table, pd.DataFrame({n: cols[n] for n in names}, index=ids))
            series = {}
            params = sorted({p for p, (t, _, _) in SH.MODELS[SHIP.get(kind, kind)][1].items() if t})
            for p in params:
                who = [x for x in items if p in x["series"]]
                r.shuffle(who)
                series[p] = pd.DataFrame({x["id"]: [unnum(v) for v in x["series"][p]] for x in who}, index=range(T),
                                         columns=pd.Index([x["id"] for x in who], dtype=object))
            for p in OUTPUTS[kind]:
                who = items if r.random() < 0.5 else []
                series.setdefault(p, pd.DataFrame({x["id"]: [9.0] * T for x in who}, index=range(T),
                                                  columns=pd.Index([x["id"] for x in who], dtype=object)))
            names = sorted(series)
            r.shuffle(names)
            setattr(self, table + "_t", {n: series[n] for n in names})

    def add(self, what, name, **kw):
        import pandas as pd
        assert what == "Carrier"
        row = {c: kw.get(c, "" if c == "color" else 0.0) for c in self.carriers.columns}
        self.carriers = pd.concat([self.carriers, pd.DataFrame([row], index=pd.Index([name], dtype=object))])


def big(x):
    """Numbers of a problem: the largest number of the converter counts as infinite."""
    x = float(x)
    return [1, 0] if x >= 1e19 else [-1, 0] if x <= -1e19 else num(x)


def clamped(x):
    """Numbers of the converted system: an infinite one is out of range there."""
    return [1, 0] if x == 1e20 else [-1, 0] if x == -1e20 else [0, 0] if abs(x) == float("inf") else fine(x)


def build(system, where, T, S):
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.resolve_components import build_data_base, build_network, resolve_system

    with SH.repo_lib(SH.LIBS["pypsa"][0]).open() as h:
        libs = resolve_library([parse_yaml_library(h)])
    net = build_network(resolve_system(system, libs))
    db = build_data_base(system, where)
    db.requirements_consistency(net)
    pb = build_problem(net, db, TimeBlock(1, list(range(T))), S)
    old, Y.num = Y.num, big
    try:
        return Y.observe_solver(pb.solver)
    finally:
        Y.num = old


def run(inp):
    import logging
    import shutil
    import sys
    import tempfile
    import types
    from pathlib import Path

    if "pypsa" not in sys.modules:
        m = types.ModuleType("pypsa")
        m.Network = Fake
        sys.modules["pypsa"] = m
    from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter
    from andromede.pypsa_converter.utils import transform_to_yaml
    from andromede.study.parsing import parse_yaml_components

    tmp = Path(tempfile.mkdtemp())

    def contents(v):
        return [[fine(x) for x in line.split(",")] for line in (tmp / "series" / f"{v}.txt").read_text().splitlines()]

    def comp(c):
        return {"id": c.id, "model": c.model,
                "pars": [{"id": p.id, "t": p.time_dependent, "s": p.scenario_dependent,
                          "v": ({"k": "file", "v": [0, 1], "m": contents(p.value)} if isinstance(p.value, str)
                                else {"k": "num", "v": clamped(p.value), "m": []})} for p in c.parameters or []]}

    def convert():
        log = logging.getLogger("none")
        log.disabled = True
        conv = PyPSAStudyConverter(Fake(inp), log, tmp, tmp / "series")
        system = conv.to_gems_study()
        if inp["out"] == "twice":
            system = conv.to_gems_study()
        elif inp["out"] == "yaml":
            transform_to_yaml(system, str(tmp / "system.yml"))
            with (tmp / "system.yml").open() as h:
                system = parse_yaml_components(h)
        return {"nodes": [comp(c) for c in system.nodes], "comps": [comp(c) for c in system.components],
                "conns": [{"c1": k.component1, "p1": k.port1, "c2": k.component2, "p2": k.port2} for k in system.connections],
                "pb": {"k": "err", "v": "not built"} if inp["S"] == 0 else attempt(build, system, tmp / "series", inp["net"]["T"], inp["S"])}

    try:
        (tmp / "series").mkdir()
        return attempt(convert)
    finally:
        shutil.rmtree(tmp)
