"""Systems made of the shipped models, built by the real code from the shipped libraries."""
import random

import systems as Y
from core import attempt, num, unnum

TRACE = "ShippedTrace"
LIBS = {"antares": ["antares_historic/antares_historic.yml", "reference_models/andromede_v1_models.yml"],
        "pypsa": ["pypsa_models/pypsa_models.yml"]}
AH, V1, PY = "antares-historic.", "andromede-v1-models.", "pypsa_models."
# model -> (name in the library, {parameter: (may vary with time, with scenario, values)})
N0 = [0, 1, 2, 3, 5, 10]
NP = [1, 2, 3, 5]
SG = [0, 1, 2, -1, 0.5, 10]
FR = [0, 0.25, 0.5, 1]
EF = [0.5, 0.8, 1, 2]
tsp = lambda v: (True, True, v)
t_ = lambda v: (True, False, v)
k_ = lambda v: (False, False, v)
STO = {"reservoir_capacity": k_([0, 4, 10, 12]), "injection_nominal_capacity": k_(N0), "withdrawal_nominal_capacity": k_(N0),
       "efficiency_injection": k_(EF), "efficiency_withdrawal": k_(EF), "lower_rule_curve": tsp([0, 0, 0.25]),
       "upper_rule_curve": tsp([0.5, 1, 1]), "p_max_injection_modulation": tsp(FR), "p_max_withdrawal_modulation": tsp(FR)}
MODELS = {
    "area": (AH + "area", {"spillage_cost": k_(SG), "ens_cost": k_(SG)}),
    "load": (AH + "load", {"load": tsp(SG)}),
    "link": (AH + "link", {"capacity_direct": tsp(N0), "capacity_indirect": tsp(N0)}),
    "renewable": (AH + "renewable", {"nominal_capacity": k_(NP), "unit_count": k_(NP), "generation": tsp(SG)}),
    "thermal": (AH + "thermal", {
        "p_min_cluster": tsp([0, 1]), "p_max_cluster": tsp([2, 4, 7]), "p_min_unit": k_([0, 1, 0.5]), "p_max_unit": k_(NP),
        "generation_cost": k_(SG), "startup_cost": k_(SG), "fixed_cost": k_(SG), "d_min_up": k_([1, 2, 3, 4]),
        "d_min_down": k_([1, 2, 3, 4]), "nb_units_min": tsp([0, 1]), "nb_units_max": tsp([1, 2, 3]),
        "nb_units_max_variation_forward": tsp([0, 1, 2]), "nb_units_max_variation_backward": tsp([0, 1, 2])}),
    "short-term-storage": (AH + "short-term-storage", dict(STO, inflows=tsp([0, 1, 2]), initial_level=k_(FR))),
    "battery": (V1 + "battery", dict(STO, marginal_cost=t_(SG))),
    "dsr": (V1 + "dsr", {"max_load": tsp(N0), "curtailment_price": k_(SG)}),
    "electrolyser": (V1 + "electrolyser", {"efficiency": k_(EF), "p_max": tsp(N0)}),
    "bus": (PY + "bus", {"v_nom": k_(NP), "x": k_(N0), "y": k_(N0), "v_mag_pu_set": t_(NP), "v_mag_pu_min": k_(N0),
                         "v_mag_pu_max": k_(N0)}),
    "pload": (PY + "load", {"p_set": tsp(SG), "q_set": tsp(SG), "sign": k_([-1, 1])}),
    "generator": (PY + "generator", {
        "p_nom_min": k_([0, 0, 1]), "p_nom_max": k_([2, 10, "inf"]), "p_min_pu": t_([0, 0, 0.25]), "p_max_pu": t_([0.5, 1]),
        "e_sum_min": k_([0, 1, -3]), "e_sum_max": k_([12, 20]), "sign": k_([1, -1]),
        "marginal_cost": t_(SG), "capital_cost": k_(SG), "efficiency": t_(EF), "emission_factor": k_(FR)}),
    "plink": (PY + "link", {
        "efficiency": t_(EF), "p_nom_min": k_([0, 1]), "p_nom_max": k_([2, 10, "inf"]), "p_min_pu": t_([0, -1]),
        "p_max_pu": t_([0.5, 1]), "capital_cost": k_(SG), "marginal_cost": t_(SG)}),
    "storage_unit": (PY + "storage_unit", {
        "p_nom_min": k_([0, 1]), "p_nom_max": k_([2, 10, "inf"]), "p_min_pu": t_([-0.25, -1]), "p_max_pu": t_([0.5, 1]),
        "sign": k_([1]), "spill_cost": t_(SG), "marginal_cost": t_(SG), "marginal_cost_storage": t_(SG),
        "capital_cost": k_(SG), "max_hours": k_([1, 2, 6]), "efficiency_store": t_(EF), "efficiency_dispatch": t_(EF),
        "standing_loss": t_(FR), "inflow": tsp(N0), "emission_factor": k_(FR)}),
    "store": (PY + "store", {
        "e_nom_min": k_([0, 1]), "e_nom_max": k_([2, 10, "inf"]), "e_min_pu": t_([0, -1, 0.5]), "e_max_pu": t_([0.5, 1]),
        "sign": k_([1]), "marginal_cost": t_(SG), "marginal_cost_storage": t_(SG), "capital_cost": k_(SG),
        "standing_loss": t_(FR), "emission_factor": k_(FR)}),
    "global_constraint_co2_max": (PY + "global_constraint_co2_max", {"quota": k_(N0)}),
    "global_constraint_co2_eq": (PY + "global_constraint_co2_eq", {"quota": k_(N0)}),
}
PORTS = {"load": ["balance_port"], "renewable": ["balance_port"], "thermal": ["balance_port"], "link": ["in_port", "out_port"],
         "short-term-storage": ["injection_port"], "battery": ["injection_port"], "dsr": ["balance_port"],
         "electrolyser": ["power_port", "hydrogen_port"], "pload": ["p_balance_port", "q_balance_port"],
         "generator": ["p_balance_port"], "plink": ["p0_port", "p1_port"], "storage_unit": ["p_balance_port"],
         "store": ["p_balance_port"]}


def number(r, vs):
    v = r.choice(vs)
    return [1, 0] if v == "inf" else [-1, 0] if v == "-inf" else num(v)


def data(r, model, T, S):
    """parameter -> (kind, T x S matrix)"""
    kinds, mats = {}, {}
    for p, (t, s, vs) in MODELS[model][1].items():
        bt, bs = t and r.random() < 0.7, s and r.random() < 0.7
        rows = [[number(r, vs) for _ in range(S if bs else 1)] for _ in range(T if bt else 1)]
        kinds[p] = ("t" if bt else "") + ("s" if bs else "")
        mats[p] = [[rows[i if bt else 0][j if bs else 0] for j in range(S)] for i in range(T)]
    return kinds, mats


def system(r, fam, most):
    T, S = r.choice([1, 2, 3, 4]), r.choice([1, 1, 2, 3])
    hubs = [f"n{j}" for j in range(r.choice([1, 1, 2, 3]))]
    comps = [{"id": h, "model": "area" if fam == "antares" else "bus"} for h in hubs]
    pool = (["load", "link", "renewable", "thermal", "thermal", "short-term-storage", "battery", "dsr", "electrolyser"]
            if fam == "antares" else ["pload", "generator", "generator", "plink", "storage_unit", "store"])
    conns = []
    for j in range(r.randint(0, most)):
        c = {"id": f"c{j}", "model": r.choice(pool)}
        comps.append(c)
        for p in PORTS[c["model"]]:
            if r.random() < 0.9:
                hub = r.choice(hubs)
                q = "balance_port" if fam == "antares" else "q_balance_port" if p == "q_balance_port" else "p_balance_port"
                a, b = (c["id"], p), (hub, q)
                if r.random() < 0.4:
                    a, b = b, a
                conns.append({"c1": a[0], "p1": a[1], "c2": b[0], "p2": b[1]})
    if fam == "pypsa":
        for j in range(r.choice([0, 0, 1, 2])):
            g = {"id": f"g{j}", "model": r.choice(["global_constraint_co2_max", "global_constraint_co2_eq"])}
            comps.append(g)
            for c in comps:
                if c["model"] in ("generator", "storage_unit", "store") and r.random() < 0.85:
                    a, b = (c["id"], "emission_port"), (g["id"], "emission_port")
                    if r.random() < 0.4:
                        a, b = b, a
                    conns.append({"c1": a[0], "p1": a[1], "c2": b[0], "p2": b[1]})
    r.shuffle(conns)
    kinds, mats = {}, {}
    for c in comps:
        kinds[c["id"]], mats[c["id"]] = data(r, c["model"], T, S)
    # a component is a node of the study or an ordinary component
    return {"fam": fam, "kinds": kinds,
            "sys": {"T": T, "S": S, "comps": comps, "conns": conns, "data": mats}}


def gen(tier, seed):
    r = random.Random(seed * 7919 + 23)
    n = 500 if tier == "quick" else 3000
    out = []
    for fam in ("antares", "pypsa"):
        for _ in range(n):
            out.append(system(r, fam, r.choice([1, 2, 3, 5])))
    return out, {"gen_states": 0, "gen_transitions": 0}


def repo_lib(name):
    from pathlib import Path

    import andromede.libs
    return Path(andromede.libs.__file__).parent / name


def build(inp, data_kinds=None):
    import pandas as pd

    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import (ConstantData, DataBase, ScenarioSeriesData, TimeIndex, TimeScenarioSeriesData,
                                 TimeSeriesData)
    from andromede.study.data import ScenarioIndex
    from andromede.study.parsing import InputSystem
    from andromede.study.resolve_components import build_network, resolve_system

    yl = []
    for f in LIBS[inp["fam"]]:
        with repo_lib(f).open() as h:
            yl.append(parse_yaml_library(h))
    libs = resolve_library(yl)
    S = inp["sys"]
    comps = [{"id": c["id"], "model": MODELS[c["model"]][0]} for c in S["comps"]]
    hubs = [c["id"] for c in S["comps"] if c["model"] in ("area", "bus")]
    ic = InputSystem.model_validate({
        "nodes": [c for c in comps if c["id"] in hubs], "components": [c for c in comps if c["id"] not in hubs],
        "connections": [{"component1": k["c1"], "port1": k["p1"], "component2": k["c2"], "port2": k["p2"]} for k in S["conns"]]})
    db = DataBase()
    for c, ps in S["data"].items():
        for p, m in ps.items():
            k = inp["kinds"][c][p]
            x = [[unnum(v) for v in row] for row in m]
            if k == "":
                d = ConstantData(x[0][0])
            elif k == "t":
                d = TimeSeriesData({TimeIndex(i): row[0] for i, row in enumerate(x)})
            elif k == "s":
                d = ScenarioSeriesData({ScenarioIndex(j): v for j, v in enumerate(x[0])})
            else:
                d = TimeScenarioSeriesData(pd.DataFrame(x))
            db.add_data(c, p, d)
    net = build_network(resolve_system(ic, libs))
    db.requirements_consistency(net)
    pb = build_problem(net, db, TimeBlock(1, list(range(S["T"]))), S["S"])
    return Y.observe_solver(pb.solver)


def run(inp):
    return attempt(build, inp)
