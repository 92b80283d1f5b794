"""YAML libraries: dependencies, port types, textual models, defaults."""
import random

from core import attempt, tlc_cases, unnum
import exprs as E
import suite_model as SM
import texts as T

TRACE = "LibraryTrace"
TYPES = {"f": ["flow"], "g": ["flow", "angle"], "h": []}


def ok_text(e):
    k = e["k"]
    if k in ("cvar", "cpar") or (k == "scen" and e["op"] != "Expectation"):
        return False
    if k == "lit" and (e["v"][1] == 0 or 'e' in repr(unnum(e["v"]))):
        return False
    return all(ok_text(x) for x in e.get("as", []) + [e[y] for y in ("a", "b", "s", "f", "t") if isinstance(e.get(y), dict)])


def opt(e):
    return [] if e["k"] == "none" or (e["k"] == "lit" and e["v"][1] == 0) else T.toks(e)


def textual(r, name):
    """A textual model from a random model of the model suite."""
    for _ in range(50):
        m = SM.one(r, 0.15)
        es = [x for v in m["vars"] for x in (v["lb"], v["ub"])] + [x for c in m["cons"] for x in (c["e"], c["lb"], c["ub"])]
        es += [d["e"] for d in m["pfd"]] + [m["objop"]]
        inf = lambda e: e["k"] == "none" or (e["k"] == "lit" and e["v"][1] == 0)
        cons_inf = any(c["lb"]["k"] == "lit" and c["lb"]["v"] == [1, 0] or c["ub"]["k"] == "lit" and c["ub"]["v"] == [-1, 0]
                       for c in m["cons"])
        if not cons_inf and all(inf(e) or ok_text(e) for e in es):
            break
    else:
        raise AssertionError
    flag = lambda b, d: r.choice(["", "yes" if b else "no"]) if b == d else ("yes" if b else "no")
    cons = [{"id": f"c{j}", "e": T.toks(c["e"]), "lb": opt(c["lb"]), "ub": opt(c["ub"])} for j, c in enumerate(m["cons"])]
    nb = r.choice([0, 0, 1]) if cons else 0
    if nb and len(cons) > 1 and r.random() < 0.3:      # same name among the two kinds
        cons[-1]["id"] = cons[0]["id"]
    tm = {"id": name, "odd": "",
          "pars": [{"id": p["n"], "t": flag(p["t"], False), "s": flag(p["s"], False)} for p in m["pars"]],
          "vars": [{"id": v["n"], "t": flag(v["t"], True), "s": flag(v["s"], True), "lb": opt(v["lb"]), "ub": opt(v["ub"]),
                    "type": r.choice(["", "", "continuous", "integer"])} for v in m["vars"]],
          "ports": [{"id": p["n"], "type": p["t"]} for p in m["ports"]],
          "pfd": [{"port": d["p"], "field": d["f"], "def": T.toks(d["e"])} for d in m["pfd"]],
          "bcons": cons[:nb], "cons": cons[nb:], "obj": opt(m["objop"])}
    if tm["vars"] and r.random() < 0.1:          # the name of a variable and of a parameter: the variable is meant
        n = r.choice(tm["vars"])["id"]
        if n not in [p["id"] for p in tm["pars"]]:
            tm["pars"].append({"id": n, "t": "", "s": ""})
    return tm


def spoil(r, tm):
    x = r.randrange(7)
    some = [k for k in ("vars", "pars", "cons", "bcons", "pfd") if tm[k]]
    if x == 6 and some:                       # a name given twice
        k = r.choice(some)
        tm[k].insert(r.randrange(len(tm[k]) + 1), dict(r.choice(tm[k])))
    elif x == 0:
        tm["odd"] = r.choice(["unknown-key", "variables.extra", "parameters.extra", "constraints.no-id", "ports.no-type", "no-id"])
    elif x == 1 and tm["vars"]:
        r.choice(tm["vars"])["type"] = r.choice(["boolean", "real", "Integer"])
    elif x == 2 and tm["ports"]:
        r.choice(tm["ports"])["type"] = "unknown"
    elif x == 3 and tm["cons"]:
        c = r.choice(tm["cons"])
        c[r.choice(["e", "lb", "ub"])] = [T.tok("id", "nowhere")]
    elif x == 4 and tm["cons"]:
        c = r.choice(tm["cons"])
        c["e"] = c["e"] + [T.tok("+")]
    else:
        tm["obj"] = r.choice([[T.tok("id", "nowhere")], [T.tok("sum"), T.tok("(")]])


def libraries(r):
    n = r.choice([1, 1, 2, 2, 3, 4])
    ids = r.sample(["basic", "ext", "Basic", "top", "alt"], n)
    pre = []
    if r.random() < 0.3:
        pre = [{"id": "base0", "odd": "", "deps": [], "ptypes": [], "models": []}]
        if r.random() < 0.3:                       # given again: replaces the preloaded one
            ids[r.randrange(n)] = "base0"
    owner = {t: r.choice(ids + [p["id"] for p in pre]) for t in TYPES}
    libs = []
    for j, x in enumerate(ids):
        deps = [y for y in ids[:j] if r.random() < 0.5]
        for t, o in owner.items():
            if o in ids[:j] and o not in deps and r.random() < 0.8:
                deps.append(o)
        if pre and "base0" not in ids[j:] + deps and r.random() < 0.4:
            deps.append("base0")
        libs.append({"id": x, "odd": "", "deps": deps, "ptypes": [], "models": []})
    again = "base0" in ids
    for l in libs + pre:
        l["ptypes"] = [{"id": t, "fields": fs} for t, fs in TYPES.items()
                       if owner[t] == l["id"] and not (again and l in pre and r.random() < 0.9)]
        if not (again and l in pre) and r.random() < 0.3:
            l["ptypes"].append({"id": "own" + l["id"], "fields": r.choice([["u"], [], ["u", "v"]])})
    seen = {}

    def visible(l):
        s = {p["id"] for p in l["ptypes"]} | {p["id"] for q in pre for p in q["ptypes"]}
        for d in l["deps"]:
            s |= seen.get(d, set())
        return s

    for l in libs:
        seen[l["id"]] = visible(l)
        for k in range(r.choice([0, 1, 1, 2])):
            for _ in range(40):
                tm = textual(r, f"m{k}")
                if {p["type"] for p in tm["ports"]} <= seen[l["id"]] or r.random() < 0.02:
                    break
            else:
                continue
            l["models"].append(tm)
        if l["models"] and r.random() < 0.04:
            for _ in range(r.choice([1, 1, 2, 3])):
                l["models"].append(dict(textual(r, l["models"][0]["id"]), ports=[], pfd=[]))
    if r.random() < 0.25:
        ms = [m for l in libs for m in l["models"]]
        x = r.randrange(5)
        if x < 2 and ms:
            spoil(r, r.choice(ms))
        elif x == 2:
            r.choice(libs)["odd"] = r.choice(["unknown-key", "port-types.extra", "no-id"])
        elif x == 3:
            r.choice(libs)["deps"].append(r.choice(ids + ["gone"]))
        else:
            l = r.choice(libs)
            t = r.choice(list(TYPES))
            if t not in [p["id"] for p in l["ptypes"]]:
                l["ptypes"].append({"id": t, "fields": r.choice([TYPES[t], ["zz"]])})
    if r.random() < 0.02:
        libs.append(dict(libs[0]))
    order = list(range(len(libs)))
    r.shuffle(order)
    return {"libs": libs, "pre": pre, "order": order, "snake": r.random() < 0.3, "spaces": r.random() < 0.5,
            "numbers": r.random() < 0.5, "via": "files" if not pre and r.random() < 0.5 else "resolve"}


def gen(tier, seed):
    r = random.Random(seed * 71 + 9)
    cases, t = tlc_cases("LibraryGen")
    inputs = []
    n = 2000 if tier == "quick" else 15000
    picked = []
    for why in sorted({c["fine"] for c in cases}):
        cs = [c for c in cases if c["fine"] == why]
        picked += r.sample(cs, min(n if why == "ok" else n // 3, len(cs)))
    for c in picked:
        order = [0, 1, 2]
        r.shuffle(order)
        inputs.append(dict(c, order=order, snake=False, spaces=False, numbers=False, via="resolve"))
    for _ in range(1200 if tier == "quick" else 15000):
        inputs.append(libraries(r))
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


def document(lib, o):
    """The YAML document of a library, as Python data."""
    key = lambda k: k.replace("-", "_") if o["snake"] else k
    tx = lambda ts: T.text(ts, o["spaces"])

    def bound(d, name, ts):
        if not ts:
            return
        s = tx(ts)
        if o["numbers"] and len(ts) == 1 and ts[0]["k"] == "num":
            d[key(name)] = float(s) if "." in s else int(s)
        else:
            d[key(name)] = s

    def flags(d, x):
        for k, n in (("t", "time-dependent"), ("s", "scenario-dependent")):
            if x[k]:
                d[key(n)] = x[k] == "yes"
        return d

    def con(c):
        d = {"id": c["id"], "expression": tx(c["e"])}
        for k, n in (("lb", "lower-bound"), ("ub", "upper-bound")):
            if c[k]:
                d[key(n)] = tx(c[k])
        return d

    def mod(m):
        d = {"id": m["id"]}
        if m["pars"]:
            d["parameters"] = [flags({"id": p["id"]}, p) for p in m["pars"]]
        if m["vars"]:
            d["variables"] = []
            for v in m["vars"]:
                x = flags({"id": v["id"]}, v)
                bound(x, "lower-bound", v["lb"])
                bound(x, "upper-bound", v["ub"])
                if v["type"]:
                    x[key("variable-type")] = v["type"]
                d["variables"].append(x)
        if m["ports"]:
            d["ports"] = [{"id": p["id"], "type": p["type"]} for p in m["ports"]]
        if m["pfd"]:
            d[key("port-field-definitions")] = [{"port": x["port"], "field": x["field"], "definition": tx(x["def"])}
                                                for x in m["pfd"]]
        if m["bcons"]:
            d[key("binding-constraints")] = [con(c) for c in m["bcons"]]
        if m["cons"]:
            d["constraints"] = [con(c) for c in m["cons"]]
        if m["obj"]:
            d["objective"] = tx(m["obj"])
        odd(d, m["odd"])
        return d

    def odd(d, what):
        if not what:
            return
        if what == "no-id":
            del d["id"]
        elif "." in what:
            part, w = what.split(".")
            if not d.get(part):
                d["unknown-key"] = 1
            elif w == "extra":
                d[part][0]["unknown"] = 1
            else:
                del d[part][0][w[3:]]
        else:
            d[what] = 1

    d = {"id": lib["id"]}
    if lib["deps"]:
        d["dependencies"] = lib["deps"]
    if lib["ptypes"]:
        d[key("port-types")] = [{"id": p["id"], "fields": [{"id": f} for f in p["fields"]]} for p in lib["ptypes"]]
    if lib["models"]:
        d["models"] = [mod(m) for m in lib["models"]]
    odd(d, lib["odd"])
    return {"library": d}


def show(x):
    return {"vars": [{"n": k, "t": v.structure.time, "s": v.structure.scenario, "lb": E.enc(v.lower_bound),
                      "ub": E.enc(v.upper_bound)} for k, v in x.variables.items()],
            "pars": [{"n": k, "t": p.structure.time, "s": p.structure.scenario} for k, p in x.parameters.items()],
            "cons": [{"n": c.name, "e": E.enc(c.expression), "lb": E.enc(c.lower_bound), "ub": E.enc(c.upper_bound)}
                     for c in x.get_all_constraints()],
            "ports": [{"n": k, "t": p.port_type.id} for k, p in x.ports.items()],
            "pfd": [{"p": k.port_name, "f": k.field_name, "e": E.enc(d.definition)}
                    for k, d in x.port_fields_definitions.items()],
            "objs": [E.enc(x.objective_operational_contribution), E.enc(x.objective_investment_contribution)]}


def run(inp):
    import io
    import shutil
    import tempfile
    from pathlib import Path

    import yaml

    from andromede.model.common import ProblemContext
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library

    import andromede.main.main as MAIN

    docs = [yaml.safe_dump(document(inp["libs"][j], inp), sort_keys=False) for j in inp["order"]]
    pre = attempt(lambda: [resolve_library([parse_yaml_library(io.StringIO(yaml.safe_dump(document(p, inp))))])[p["id"]]
                           for p in inp["pre"]])
    if pre["k"] == "err":
        return {"k": "err", "v": "preloaded"}
    pre = pre["v"]
    before = repr(pre)

    def go():
        if inp["via"] == "files":
            tmp = Path(tempfile.mkdtemp())
            try:
                fs = []
                for j, d in enumerate(docs):
                    fs.append(tmp / f"lib{j}.yml")
                    fs[-1].write_text(d)
                return MAIN.input_libs(fs)
            finally:
                shutil.rmtree(tmp)
        libs = [parse_yaml_library(io.StringIO(d)) for d in docs]
        if len({l.id for l in libs}) < len(libs):
            raise ValueError("duplicate identifier")     # only the file entry point checks this
        return resolve_library(libs, pre or None)

    def full():
        res = go()
        mine = {l["id"] for l in inp["libs"]}
        kept = all(res.get(p.id) is p for p in pre if p.id not in mine) and repr(pre) == before
        out, ctx = [], True
        for k, l in res.items():
            if k not in mine:
                continue
            kept = kept and l.id == k
            for m in l.models.values():
                ctx = ctx and all(v.context == ProblemContext.OPERATIONAL for v in m.variables.values()) \
                    and all(c.context == ProblemContext.OPERATIONAL for c in m.get_all_constraints())
            out.append({"id": k, "types": {t: [f.name for f in p.fields] for t, p in l.port_types.items() if p.id == t},
                        "models": [{"id": i, "kinds": [v.data_type.name for v in m.variables.values()], "m": show(m)}
                                   for i, m in l.models.items() if m.id == i]})
        extra = set(res) - mine - {p.id for p in pre}
        return {"libs": out, "ctx": ctx, "kept": kept and not extra}

    return attempt(full)
