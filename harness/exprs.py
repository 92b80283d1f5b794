"""Expressions: JSON form <-> real nodes, and random generation of JSON forms."""
from core import fine, num, unnum


# ------------------------------------------------------------- JSON helpers
def lit(v):
    return {"k": "lit", "v": fine(v)}


def var(n):
    return {"k": "var", "n": n}


def par(n):
    return {"k": "par", "n": n}


def cvar(c, n):
    return {"k": "cvar", "c": c, "n": n}


def cpar(c, n):
    return {"k": "cpar", "c": c, "n": n}


def neg(a):
    return {"k": "neg", "a": a}


def add(*xs):
    return {"k": "add", "as": list(xs)}


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return {"k": "mul", "a": a, "b": b}


def div(a, b):
    return {"k": "div", "a": a, "b": b}


def cmp_(a, b, op):
    return {"k": "cmp", "a": a, "b": b, "op": op}


def shift(a, s):
    return {"k": "shift", "a": a, "s": s if isinstance(s, dict) else lit(s)}


def ev(a, s):
    return {"k": "eval", "a": a, "s": s if isinstance(s, dict) else lit(s)}


def tsum(a, f, t):
    return {"k": "tsum", "a": a, "f": f if isinstance(f, dict) else lit(f),
            "t": t if isinstance(t, dict) else lit(t)}


def asum(a):
    return {"k": "asum", "a": a}


def expec(a):
    return {"k": "scen", "a": a, "op": "Expectation"}


def port(p, f):
    return {"k": "port", "p": p, "f": f}


def pagg(p, f):
    return {"k": "pagg", "p": p, "f": f}


NONE = {"k": "none"}
OPS = {"<=": "LESS_THAN", "=": "EQUAL", ">=": "GREATER_THAN"}


# ------------------------------------------------------------ to real nodes
def real(e):
    """Builds the real expression with the nodes' constructors."""
    from andromede.expression import expression as X

    k = e["k"]
    if k == "lit":
        return X.literal(unnum(e["v"]))
    if k == "var":
        return X.var(e["n"])
    if k == "par":
        return X.param(e["n"])
    if k == "cvar":
        return X.comp_var(e["c"], e["n"])
    if k == "cpar":
        return X.comp_param(e["c"], e["n"])
    if k == "port":
        return X.port_field(e["p"], e["f"])
    if k == "pagg":
        return X.port_field(e["p"], e["f"]).sum_connections()
    if k == "neg":
        return X.NegationNode(real(e["a"]))
    if k == "add":
        return X.AdditionNode([real(x) for x in e["as"]])
    if k == "mul":
        return X.MultiplicationNode(real(e["a"]), real(e["b"]))
    if k == "div":
        return X.DivisionNode(real(e["a"]), real(e["b"]))
    if k == "cmp":
        return X.ComparisonNode(real(e["a"]), real(e["b"]), X.Comparator(OPS[e["op"]]))
    if k == "shift":
        return X.TimeShiftNode(real(e["a"]), real(e["s"]))
    if k == "eval":
        return X.TimeEvalNode(real(e["a"]), real(e["s"]))
    if k == "tsum":
        return X.TimeSumNode(real(e["a"]), real(e["f"]), real(e["t"]))
    if k == "asum":
        return X.AllTimeSumNode(real(e["a"]))
    if k == "scen":
        return X.ScenarioOperatorNode(real(e["a"]), e["op"])
    raise ValueError(k)


def ops(e, plain=False):
    """Builds the real expression with the overloaded operators and methods.

    A literal operand next to a node is given as a plain Python number."""
    k = e["k"]
    if k == "lit":
        v = unnum(e["v"])
        if plain:
            return int(v) if v == int(v) else v
        return real(e)
    if k in ("var", "par", "cvar", "cpar", "port", "pagg"):
        return real(e)
    if k == "neg":
        return -ops(e["a"])
    if k == "add":
        acc = None
        for i, x in enumerate(e["as"]):
            if i == 0:
                nxt = e["as"][1] if len(e["as"]) > 1 else None
                acc = ops(x, plain=nxt is not None and nxt["k"] not in ("lit", "neg"))
            elif x["k"] == "neg":
                acc = acc - ops(x["a"], plain=True)
            else:
                acc = acc + ops(x, plain=not isinstance(acc, (int, float)))
        return acc
    if k in ("mul", "div", "cmp"):
        a = ops(e["a"], plain=k in ("mul", "div") and e["b"]["k"] != "lit")
        b = ops(e["b"], plain=not isinstance(a, (int, float)))
        if k == "mul":
            return a * b
        if k == "div":
            return a / b
        return a <= b if e["op"] == "<=" else a >= b if e["op"] == ">=" else a == b
    if k == "shift":
        return ops(e["a"]).shift(ops(e["s"], plain=True))
    if k == "eval":
        return ops(e["a"]).eval(ops(e["s"], plain=True))
    if k == "tsum":
        return ops(e["a"]).time_sum(ops(e["f"], plain=True), ops(e["t"], plain=True))
    if k == "asum":
        return ops(e["a"]).time_sum()
    if k == "scen":
        return ops(e["a"]).expec() if e["op"] == "Expectation" else ops(e["a"]).variance()
    raise ValueError(k)


# ---------------------------------------------------------- from real nodes
def enc(n):
    """Observation of a real node; anything unexpected becomes the tag "alien"."""
    if n is None:
        return NONE
    t = type(n).__name__
    try:
        if t == "LiteralNode":
            return {"k": "lit", "v": fine(n.value)}
        if t == "VariableNode":
            return var(n.name)
        if t == "ParameterNode":
            return par(n.name)
        if t == "ComponentVariableNode":
            return cvar(n.component_id, n.name)
        if t == "ComponentParameterNode":
            return cpar(n.component_id, n.name)
        if t in ("ProblemVariableNode", "ProblemParameterNode"):
            return {"k": "pvar" if t == "ProblemVariableNode" else "ppar", "c": n.component_id, "n": n.name,
                    "ti": repr(n.time_index), "si": repr(n.scenario_index)}
        if t == "PortFieldNode":
            return port(n.port_name, n.field_name)
        if t == "PortFieldAggregatorNode":
            return pagg(n.operand.port_name, n.operand.field_name)
        if t == "NegationNode":
            return neg(enc(n.operand))
        if t == "AdditionNode":
            return add(*[enc(x) for x in n.operands])
        if t == "MultiplicationNode":
            return mul(enc(n.left), enc(n.right))
        if t == "DivisionNode":
            return div(enc(n.left), enc(n.right))
        if t == "ComparisonNode":
            inv = {v: k for k, v in OPS.items()}
            return cmp_(enc(n.left), enc(n.right), inv[n.comparator.value])
        if t == "TimeShiftNode":
            return shift(enc(n.operand), enc(n.time_shift))
        if t == "TimeEvalNode":
            return ev(enc(n.operand), enc(n.eval_time))
        if t == "TimeSumNode":
            return tsum(enc(n.operand), enc(n.from_time), enc(n.to_time))
        if t == "AllTimeSumNode":
            return asum(enc(n.operand))
        if t == "ScenarioOperatorNode":
            return {"k": "scen", "a": enc(n.operand), "op": n.name}
    except Exception:
        pass
    return {"k": "alien", "n": t}


# --------------------------------------------------------------- generation
class Gen:
    """Random linear expressions with component context (JSON form)."""

    def __init__(self, rng, vars_, pars, consts, depth=3, time_ops=True, scen_ops=True,
                 bounds=None):
        self.r, self.vars, self.pars, self.consts = rng, vars_, pars, consts
        self.time_ops, self.scen_ops = time_ops, scen_ops
        self.bounds = bounds or []
        self.maxdepth = depth

    def small(self):
        return lit(self.r.choice([0, 1, 2, 3, -1, -2, 0.5, 4, 1.5]))

    def nz(self):
        return lit(self.r.choice([1, 2, 4, -2, 0.5, -1]))

    def bound(self):
        r = self.r
        x = r.random()
        if self.bounds and x < 0.3:
            b = r.choice(self.bounds)
            y = r.random()
            if y < 0.3:
                return b
            if y < 0.6:
                return neg(b)
            return add(b, lit(r.choice([1, -1, 2]))) if y < 0.85 else mul(lit(-1), b)
        return lit(r.choice([-3, -2, -1, 0, 1, 2, 3, 5, -5]))

    def const(self, d):
        """A constant (no variable) expression."""
        r = self.r
        if d <= 0 or r.random() < 0.4:
            pool = self.pars
            return r.choice(pool) if pool and r.random() < 0.6 else self.small()
        x = r.random()
        if x < 0.15:
            return neg(self.const(d - 1))
        if x < 0.45:
            return add(self.const(d - 1), self.const(d - 1))
        if x < 0.6:
            return mul(self.const(d - 1), self.const(d - 2))
        if x < 0.7:
            return div(self.const(d - 1), self.nz())
        if x < 0.9 and self.time_ops:
            return self.time(self.const(d - 1))
        if self.scen_ops:
            return expec(self.const(d - 1))
        return self.const(d - 1)

    def time(self, a):
        r = self.r
        x = r.random()
        if x < 0.4:
            return shift(a, self.bound())
        if x < 0.55:
            return ev(a, self.bound())
        if x < 0.8:
            f = r.choice([-2, -1, 0, 1])
            return tsum(a, f, f + r.choice([0, 1, 2, 3]))
        return asum(a)

    def lin(self, d=None):
        """An expression which is linear in the variables."""
        r = self.r
        d = self.maxdepth if d is None else d
        if d <= 0 or r.random() < 0.12:
            return r.choice(self.vars) if r.random() < 0.7 else self.const(0)
        x = r.random()
        if x < 0.1:
            return neg(self.lin(d - 1))
        if x < 0.38:
            xs = [self.lin(d - 1) for _ in range(r.choice([2, 2, 3]))]
            return add(*[neg(y) if r.random() < 0.3 else y for y in xs])
        if x < 0.58:
            a, b = self.const(min(d - 1, 1)), self.lin(d - 1)
            return mul(a, b) if r.random() < 0.5 else mul(b, a)
        if x < 0.65:
            return div(self.lin(d - 1), self.nz())
        if x < 0.9 and self.time_ops:
            return self.time(self.lin(d - 1))
        if self.scen_ops:
            return expec(self.lin(d - 1))
        return self.lin(d - 1)


def mag(e, leaf=(8, 2), T=1, S=1):
    """Bound (|numerator|, denominator) of every value computed for e: the
    specification's integers are 32 bits wide."""
    k = e["k"]
    if k == "lit":
        return (abs(e["v"][0]) or 1, e["v"][1] or 1)
    if k in ("var", "cvar"):
        return (max(leaf[0], 1), leaf[1])
    if k in ("par", "cpar", "port", "pagg", "none"):
        return leaf
    if k == "add":
        n, d = 0, 1
        for x in e["as"]:
            a, b = mag(x, leaf, T, S)
            n, d = n * b + a * d, d * b
            if d > 1 and b == d:      # same denominators do not grow
                pass
        return (n, d)
    a = mag(e["a"], leaf, T, S)
    if k in ("mul", "cmp"):
        b = mag(e["b"], leaf, T, S)
        return (a[0] * b[0], a[1] * b[1])
    if k == "div":
        b = mag(e["b"], leaf, T, S)
        return (a[0] * b[1], a[1] * b[0])
    if k == "tsum":
        return (a[0] * 4 * a[1] ** 3, a[1] ** 4) if a[1] > 4 else (a[0] * 4, a[1])
    if k == "asum":
        return (a[0] * T, a[1])
    if k == "scen":
        return (a[0] * S, a[1] * S)
    return a


def fits(e, leaf=(8, 2), T=1, S=1, limit=100_000_000):
    n, d = mag(e, leaf, T, S)
    return n < limit and d < 10_000
