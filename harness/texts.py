"""Expressions as token sequences of the textual language (for the specification) and as text."""
from core import unnum
from suite_parse import clash, tok


def number(v):
    s = repr(float(v))
    s = s[:-2] if s.endswith(".0") else s
    return tok("num", s, v)


def toks(e):
    k = e["k"]
    P = lambda x: [tok("(")] + toks(x) + [tok(")")]
    A = lambda x: toks(x) if x["k"] in ("var", "par", "port", "pagg", "asum", "scen", "tsum") or \
        (x["k"] == "lit" and unnum(x["v"]) >= 0) else P(x)
    if k == "lit":
        v = unnum(e["v"])
        return [number(v)] if v >= 0 else [tok("-"), number(-v)]
    if k in ("var", "par"):
        return [tok("id", e["n"])]
    if k == "neg":
        return [tok("-")] + A(e["a"])
    if k == "add":
        out = []
        for j, x in enumerate(e["as"]):
            if j and x["k"] == "neg":
                out += [tok("-")] + A(x["a"])
            else:
                out += ([tok("+")] if j else []) + A(x)
        return out
    if k in ("mul", "div"):
        return A(e["a"]) + [tok("*" if k == "mul" else "/")] + A(e["b"])
    if k == "cmp":
        return A(e["a"]) + [tok("cmp", e["op"])] + A(e["b"])
    if k == "port":
        return [tok("id", e["p"]), tok("."), tok("id", e["f"])]
    if k == "pagg":
        return [tok("sumc", "sum_connections"), tok("("), tok("id", e["p"]), tok("."), tok("id", e["f"]), tok(")")]
    if k == "asum":
        return [tok("sum"), tok("(")] + toks(e["a"]) + [tok(")")]
    if k == "scen":
        return [tok("id", "expec"), tok("(")] + toks(e["a"]) + [tok(")")]

    def index(s):
        if s["k"] == "lit" and unnum(s["v"]) < 0:
            return [tok("t"), tok("-"), number(-unnum(s["v"]))]
        return [tok("t"), tok("+")] + A(s)

    base = toks(e["a"]) if e["a"]["k"] in ("var", "par") else P(e["a"]) if k in ("shift", "eval") else None
    if k == "shift":
        return base + [tok("[")] + index(e["s"]) + [tok("]")]
    if k == "eval":
        return base + [tok("[")] + toks(e["s"]) + [tok("]")]
    assert k == "tsum", k
    return ([tok("sum"), tok("(")] + index(e["f"]) + [tok("..")] + index(e["t"]) + [tok(",")] + toks(e["a"]) + [tok(")")])


def text(ts, spaces=False):
    out = ""
    for j, t in enumerate(ts):
        out += (" " if j and (spaces or clash(ts[j - 1], t)) else "") + t["n"]
    return out
