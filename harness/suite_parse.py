"""Parsing of textual expressions."""
import random

from core import attempt, fine, tlc_cases
import exprs as E

TRACE = "ParserTrace"
WORDS = {"num", "id", "t", "sum", "sumc"}


def tok(k, n=None, v=0):
    return {"k": k, "n": n or k, "v": fine(v)}


NUMS = ["0", "1", "2", "3", "10", "0.5", "2.25", "007", "1.50", "12",
        "0.00005", "0.000000001", "123456789", "1.00000001", "3.14159265", "0.0", "00.5"]
IDS = {"vars": ["x", "y2", "level", "t1", "T", "sumx", "_u", "both"], "pars": ["both", "p", "cost", "expec2", "tt", "P_1"]}
OTHER = [{"vars": IDS["pars"], "pars": IDS["vars"]}, {"vars": IDS["vars"], "pars": []}, {"vars": IDS["vars"] + IDS["pars"] + ["z"], "pars": ["foo"]}]
UNKNOWN = ["z", "foo", "X", "t_"]
PUNCT = ["+", "-", "*", "/", "(", ")", "[", "]", ".", ",", ".."]


def n_(s):
    return tok("num", s, float(s))


def i_(s):
    return tok("id", s)


class G:
    """Random sentences of the grammar."""

    def __init__(self, r):
        self.r = r

    def atom(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return [n_(r.choice(NUMS))]
        if x < 0.7:
            return [i_(r.choice(IDS["vars"]))]
        return [i_(r.choice(IDS["pars"]))]

    def ident(self):
        r = self.r
        return i_(r.choice(IDS["vars"] + IDS["pars"]))

    def paren(self, d):
        return [tok("(")] + self.expr(d - 1) + [tok(")")]

    def port(self):
        r = self.r
        return [i_(r.choice(["port", "injection", "x", "zz"])), tok("."), i_(r.choice(["flow", "f", "y2"]))]

    def shift(self, d):
        r = self.r
        res = [tok("t")]
        if r.random() < 0.2:
            return res
        res += [tok(r.choice("+-"))] + self.sop(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
            res += [tok(r.choice("+-*/"))] + self.sop(d)
        return res

    def sop(self, d):
        return self.paren(min(d, 2)) if d > 0 and self.r.random() < 0.25 else self.atom()

    def index(self, d):
        inner = self.shift(d) if self.r.random() < 0.7 else self.expr(min(d - 1, 1))
        return [tok("[")] + inner + [tok("]")]

    def primary(self, d):
        r = self.r
        if d <= 0:
            return self.atom()
        x = r.random()
        if x < 0.3:
            return self.atom()
        if x < 0.45:
            return self.paren(d)
        if x < 0.52:
            return [tok("-")] + self.primary(d - 1)
        if x < 0.57:
            return self.port()
        if x < 0.69:
            return [self.ident()] + self.index(d - 1)
        if x < 0.78:
            return self.paren(d - 1) + self.index(d - 1)
        if x < 0.84:
            return [tok("sum"), tok("(")] + self.expr(d - 1) + [tok(")")]
        if x < 0.88:
            return [tok("sumc", "sum_connections"), tok("(")] + self.port() + [tok(")")]
        if x < 0.95:
            return ([tok("sum"), tok("(")] + self.shift(1) + [tok("..")] + self.shift(1) + [tok(",")]
                    + self.expr(d - 1) + [tok(")")])
        return [i_(r.choice(["expec"] * 8 + ["Expec", "EXPEC", "expec2", "esp", "exp"])), tok("(")] + self.expr(d - 1) + [tok(")")]

    def expr(self, d):
        r = self.r
        res = self.primary(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            x = r.random()
            op = tok(r.choice("+-*/")) if x < 0.92 else tok("cmp", r.choice(["<=", ">=", "="]))
            if d <= 0 and op["k"] == "cmp":
                op = tok("+")
            res += [op] + self.primary(d - 1)
        return res


def any_token(r):
    x = r.random()
    if x < 0.15:
        return n_(r.choice(NUMS))
    if x < 0.35:
        return i_(r.choice(IDS["vars"] + IDS["pars"] + UNKNOWN + ["expec"]))
    if x < 0.45:
        return tok("t")
    if x < 0.5:
        return tok("sum")
    if x < 0.53:
        return tok("sumc", "sum_connections")
    if x < 0.6:
        return tok("cmp", r.choice(["<=", ">=", "="]))
    if x < 0.66:
        return tok("bad", r.choice(["!", "<", ">", "#", "$", "^", "%", "&", "{", "}", ";", ":", "'", "é", "@", "\\"]))
    return tok(r.choice(PUNCT))


def mutate(r, ts):
    ts = list(ts)
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        if x < 0.3 and len(ts) > 1:
            del ts[r.randrange(len(ts))]
        elif x < 0.6:
            ts.insert(r.randrange(len(ts) + 1), any_token(r))
        elif x < 0.8:
            ts[r.randrange(len(ts))] = any_token(r)
        elif len(ts) > 1:
            j = r.randrange(len(ts) - 1)
            ts[j], ts[j + 1] = ts[j + 1], ts[j]
        if not ts:
            ts = [any_token(r)]
    return ts


def clash(a, b):
    """Would two adjacent tokens be read as something else without a blank?"""
    s = a["n"] + b["n"]
    if a["k"] in WORDS and b["k"] in WORDS:
        return True
    if a["k"] == "num" and b["n"].startswith(".") or a["n"] == "." and b["n"].startswith("."):
        return True
    if a["n"].endswith(".") and b["k"] in ("num", "..", "."):
        return True
    if a["n"] in ("<", ">") and b["n"].startswith("="):
        return True
    return False


def render(r, ts, style):
    out = ""
    for j, t in enumerate(ts):
        if j:
            if clash(ts[j - 1], t) or style == 1 or (style == 2 and r.random() < 0.4):
                out += r.choice([" ", " ", "  ", "\t", "\n", "\r\n"]) if style == 2 else " "
        out += t["n"]
    if style == 2 and r.random() < 0.3:
        out = " " + out + "\n"
    return out


def gen(tier, seed):
    rng = random.Random(seed)
    cases, r0 = tlc_cases("ParserGen", {"MAXLEN": 3 if tier == "quick" else 4}, heap="8g")
    inputs = []
    for ts in cases:
        inputs.append({"ts": ts, "ids": {"vars": ["x"], "pars": ["p"]}, "text": render(rng, ts, 0)})
        if rng.random() < 0.2:
            # the same text read again in a model with other declarations
            inputs.append(dict(inputs[-1], ids=rng.choice([{"vars": ["p"], "pars": ["x"]}, {"vars": ["p", "x"], "pars": []},
                                                           {"vars": [], "pars": ["p"]}, {"vars": ["x"], "pars": []}])))
    n = 3000 if tier == "quick" else 40000
    g = G(rng)
    while n > 0:
        ts = g.expr(rng.choice([1, 2, 2, 3, 3]))
        if len(ts) > 40:
            continue
        if rng.random() < 0.35:
            ts = mutate(rng, ts)
        n -= 1
        inputs.append({"ts": ts, "ids": IDS, "text": render(rng, ts, rng.randrange(3))})
        if n % 5 == 0:
            inputs.append(dict(inputs[-1], ids=OTHER[n // 5 % len(OTHER)]))
    return inputs, {"gen_states": r0.distinct, "gen_transitions": r0.states}


def run(inp):
    from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression

    def go():
        return E.enc(parse_expression(
            inp["text"], ModelIdentifiers(set(inp["ids"]["vars"]), set(inp["ids"]["pars"]))))
    return attempt(go)
