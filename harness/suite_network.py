"""Histories of network edits: nodes, components, connections, replicas."""
import random

from core import attempt, tlc_cases

TRACE = "NetworkTrace"
MODELS = {"src": {"ports": {"p": "f"}, "defs": [{"p": "p", "f": "flow"}]},
          "snk": {"ports": {"p": "f", "q": "g"}, "defs": [{"p": "q", "f": "flow"}]},
          "alt": {"ports": {"p": "g"}, "defs": [{"p": "p", "f": "cost"}]}}
TYPES = {"f": ["flow"], "g": ["flow", "cost"]}


def random_models(r):
    types = {"f": ["flow"], "g": ["flow", "cost"], "h": ["a", "b", "c"]}
    # two types of the same name with different fields are different types
    if r.random() < 0.3:
        types["g~"] = r.choice([["flow"], ["cost"], ["flow", "cost", "temp"], ["cost", "flow"]])
    models = {}
    for j in range(r.choice([3, 4, 5])):
        ports = {p: r.choice(["f", "g", "g", "h"] + ["g", "g~", "g~"] * ("g~" in types)) for p in r.sample(["p", "q", "r"], r.choice([1, 2, 2, 3]))}
        style = r.random()
        defs = [{"p": p, "f": f} for p, t in ports.items() for f in types[t]
                if (style < 0.3 or (style < 0.8 and r.random() < 0.5))]
        models[f"m{j}"] = {"ports": ports, "defs": defs}
    return models, types


def random_ops(r, models):
    ops, nets, have = [], 1, {1: {}}
    blank = {"a": "", "m": "", "m2": "", "b": "", "p": "", "q": ""}
    if r.random() < 0.15:
        m, m2 = r.choice(list(models)), r.choice(list(models))
        ops.append(dict(blank, op="link", n=1, a="A", b="B", m=m, m2=m2,
                        p=r.choice(list(models[m]["ports"])), q=r.choice(list(models[m2]["ports"]))))
    for _ in range(r.choice([0, 0, 4, 8, 12, 16])):
        n = r.randrange(nets) + 1
        x = r.random()
        if x < 0.3 or len(have[n]) < 2:
            a, m = r.choice("ABCD"), r.choice(list(models))
            ops.append(dict(blank, op=r.choice(["node", "comp"]), n=n, a=a, m=m))
            have[n][a] = m
        elif x < 0.84:
            a, b = r.choice(list(have[n])), r.choice(list(have[n]))
            p = r.choice(list(models[have[n][a]]["ports"]) + ["zz"])
            q = r.choice(list(models[have[n][b]]["ports"]) + ["p"])
            ops.append(dict(blank, op="connect", n=n, a=a, b=b, p=p, q=q))
        elif x < 0.87:
            m, m2 = r.choice(list(models)), r.choice(list(models))
            ops.append(dict(blank, op="link", n=n, a=r.choice("ABCD"), b=r.choice("ABCD"), m=m, m2=m2,
                            p=r.choice(list(models[m]["ports"])), q=r.choice(list(models[m2]["ports"]))))
        elif x < 0.92:
            ops.append(dict(blank, op="turn", n=n))
        elif nets < 4:
            ops.append(dict(blank, op="copy", n=n, a=r.choice(["", "", "other", "net2"])))
            nets += 1
            have[nets] = dict(have[n])
    return ops


def gen(tier, seed):
    r = random.Random(seed * 31 + 7)
    cases, t = tlc_cases("NetworkGen", {"MAXOPS": 3})
    inputs = []
    keep = [c for c in cases if any(x["op"] == "connect" for x in c) and c[0]["op"] != "connect"]
    rest = [c for c in cases if not (any(x["op"] == "connect" for x in c) and c[0]["op"] != "connect")]
    cases = (keep if len(keep) < 6000 else r.sample(keep, 6000)) + r.sample(rest, min(len(rest), 1000))
    for c in cases:
        inputs.append({"models": MODELS, "types": TYPES, "ops": c, "ids": ["A", "B"]})
    for _ in range(1500 if tier == "quick" else 20000):
        models, types = random_models(r)
        inputs.append({"models": models, "types": types, "ops": random_ops(r, models), "ids": list("ABCD")})
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def run(inp):
    from andromede.expression import literal
    from andromede.model import ModelPort, PortField, PortType, model
    from andromede.model.port import port_field_def
    from andromede.study import Network, PortRef, create_component
    from andromede.study.network import create_node

    # a type object per model: equality of port types is structural (same name, same fields)
    key = {(t.rstrip("~"), tuple(fs)): t for t, fs in inp["types"].items()}
    models = {}
    for n, m in inp["models"].items():
        pts = {t: PortType(t.rstrip("~"), [PortField(f) for f in fs]) for t, fs in inp["types"].items()}
        models[n] = model(id=n, ports=[ModelPort(pts[t], p) for p, t in m["ports"].items()],
                          port_fields_definitions=[port_field_def(d["p"], d["f"], literal(1)) for d in m["defs"]])
    nets = [Network("net")]
    oks = []
    for op in inp["ops"]:
        n = nets[op["n"] - 1]

        def step():
            if op["op"] == "node":
                n.add_node(create_node(models[op["m"]], op["a"]))
            elif op["op"] == "comp":
                n.add_component(create_component(models[op["m"]], op["a"]))
            elif op["op"] == "connect":
                n.connect(PortRef(n.get_component(op["a"]), op["p"]), PortRef(n.get_component(op["b"]), op["q"]))
            elif op["op"] == "link":
                n.connect(PortRef(create_component(models[op["m"]], op["a"]), op["p"]),
                          PortRef(create_component(models[op["m2"]], op["b"]), op["q"]))
            elif op["op"] == "turn":
                c = n.get_connection(-1)
                c.port1, c.port2 = c.port2, c.port1
            else:
                nets.append(n.replicate(id=op["a"]) if op["a"] else n.replicate())

        oks.append(attempt(step)["k"] == "ok")

    def look(f, a):
        r = attempt(f, a)
        return r["v"].model.id if r["k"] == "ok" else "none"

    def show(n):
        conns = []
        for c in n.connections:
            ms = {f.name: 1 if ref is c.port1 or ref == c.port1 and c.port1 != c.port2 else 2
                  for f, ref in c.master_port.items()}
            if c.port1 == c.port2:
                ms = {f.name: 1 if ref is c.port1 else 2 for f, ref in c.master_port.items()}
            conns.append({"c1": c.port1.component.id, "p1": c.port1.port_id, "c2": c.port2.component.id,
                          "p2": c.port2.port_id, "type": key[(c.get_port_type().id, tuple(f.name for f in c.get_port_type().fields))], "ms": ms})
        conns2 = [n.get_connection(j) is c for j, c in enumerate(n.connections)]
        return {"id": n.id, "nodes": [{"id": x.id, "m": x.model.id} for x in n.nodes],
                "comps": [{"id": x.id, "m": x.model.id} for x in n.components],
                "conns": conns if all(conns2) else "different connections",
                "empty": n.is_empty(),
                "look": {a: look(n.get_component, a) for a in inp["ids"]},
                "nlook": {a: look(n.get_node, a) for a in inp["ids"]},
                "all": [x.id for x in n.all_components]}

    shown = attempt(lambda: [show(n) for n in nets])
    if shown["k"] == "err":
        return shown
    return {"k": "ok", "oks": oks, "nets": shown["v"]}
