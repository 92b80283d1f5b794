"""mutants.py <out.json> <per file> <seed> <file> ...   mutation campaign, in scratch copies only.

Each mutant (one small edit of one source file) is run on the quick inputs of the suites of the
properties anchored in that file, and compared with the observations of the unchanged code; one
that changes no observation is then given to the repository's own tests.  What survives both is
listed for review: either equivalent, or a gap of the checks."""
import ast, copy, importlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import core
from registry import PROPERTIES
PY = "/opt/venv/bin/python"
BASE = Path("/tmp/mutbase")
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mult}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutations(tree):
    """Edits (description, function changing a copy of the tree at node number n)."""
    nodes = list(ast.walk(tree))
    anns = set()
    for x in nodes:
        for a in ("annotation", "returns"):
            y = getattr(x, a, None)
            if isinstance(y, ast.AST):
                anns.update(id(z) for z in ast.walk(y))
    for n, x in enumerate(nodes):
        if id(x) in anns:
            continue
        line = getattr(x, "lineno", 0)
        if isinstance(x, ast.BinOp) and type(x.op) in BIN:
            yield n, line, lambda y: setattr(y, "op", BIN[type(y.op)]()), "binop"
        if isinstance(x, ast.Compare):
            for c in CMP.get(type(x.ops[0]), []):
                yield n, line, lambda y, c=c: y.ops.__setitem__(0, c()), "compare"
        if isinstance(x, ast.BoolOp):
            yield n, line, lambda y: setattr(y, "op", ast.Or() if isinstance(y.op, ast.And) else ast.And()), "andor"
            yield n, line, lambda y: y.values.pop(), "dropcond"
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
            yield n, line, lambda y: (setattr(y, "op", ast.UAdd()) if isinstance(y.op, ast.USub) else setattr(y, "operand", ast.UnaryOp(ast.Not(), y.operand))), "unary"
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            yield n, line, lambda y: setattr(y, "value", not y.value), "bool"
        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
            yield n, line, lambda y: setattr(y, "value", y.value + 1), "const"
        if isinstance(x, ast.If):
            yield n, line, lambda y: setattr(y, "test", ast.Constant(False)), "iffalse"
            yield n, line, lambda y: setattr(y, "test", ast.Constant(True)), "iftrue"
        if isinstance(x, ast.IfExp):
            yield n, line, lambda y: setattr(y, "body", y.orelse), "ifexp"
            yield n, line, lambda y: setattr(y, "orelse", y.body), "ifexp"
        if isinstance(x, ast.Call) and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
            yield n, line, lambda y: y.args.__setitem__(slice(0, 2), [y.args[1], y.args[0]]), "swapargs"
        if isinstance(x, ast.Call) and x.keywords and x.keywords[-1].arg:
            yield n, line, lambda y: y.keywords.pop(), "dropkw"
        if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
            yield n, line, "delete", "delete"
        if isinstance(x, ast.For):
            yield n, line, lambda y: y.body.append(ast.Break()), "once"
        if isinstance(x, ast.Continue):
            yield n, line, "break", "break"
        if isinstance(x, ast.comprehension) and x.ifs:
            yield n, line, lambda y: y.ifs.pop(), "dropif"
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
            yield n, line, lambda y: setattr(y, "value", ast.Constant(None)), "returnnone"


def apply(tree, n, f):
    t = copy.deepcopy(tree)
    x = list(ast.walk(t))[n]
    if f in ("delete", "break"):
        for p in ast.walk(t):
            for a in ("body", "orelse", "finalbody"):
                b = getattr(p, a, None)
                if isinstance(b, list) and any(y is x for y in b):
                    b[[y is x for y in b].index(True)] = ast.Pass() if f == "delete" else ast.Break()
    else:
        f(x)
    return ast.unparse(ast.fix_missing_locations(t))


def suites_of(file):
    res = []
    for p in PROPERTIES.values():
        if file in p["files"]:
            res += [s for s in p["suites"] if s not in res]
    return res or ["build", "study"]


def norm(o):
    if isinstance(o, dict):
        return {"k": "err"} if o.get("k") == "err" else {k: norm(v) for k, v in o.items()}
    return [norm(x) for x in o] if isinstance(o, list) else o


RUNNER = r'''
import importlib, json, sys
sys.path.insert(0, "%s/harness"); sys.path.insert(0, "%s/tools")
sys.setrecursionlimit(5000)
from mutants import norm
suite, base = sys.argv[1:3]
mod = importlib.import_module("suite_" + suite)
for n, line in enumerate(open(base)):
    inp, exp = json.loads(line)
    try: obs = json.loads(json.dumps(mod.run(inp)))
    except Exception as e: print("DIFF", n, repr(e)[:100]); break
    if norm(obs) != exp: print("DIFF", n); break
'''


def baseline(suite):
    f = BASE / f"{suite}.ndjson"
    if not f.exists():
        mod = importlib.import_module("suite_" + suite)
        inputs, _ = mod.gen("quick", 1)
        obs = mod.execute(inputs) if hasattr(mod, "execute") else core.run_inputs(suite, inputs)
        order = list(range(len(inputs)))
        random.Random(0).shuffle(order)
        BASE.mkdir(exist_ok=True)
        with open(f, "w") as h:
            for j in order:
                h.write(json.dumps([inputs[j], norm(json.loads(json.dumps(obs[j])))]) + "\n")
    return f


def one(job):
    file, line, kind, text, diff = job
    w = Path(tempfile.mkdtemp(prefix="mut_"))
    try:
        r = w / "repo"
        subprocess.run(["cp", "-a", "/repo", str(r)], check=True)
        (r / file).write_text(text)
        env = dict(os.environ, PYTHONPATH=f"{r}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=str(w), MPLBACKEND="Agg")
        (w / "go.py").write_text(RUNNER % (V, V))
        for s in suites_of(file):
            try:
                p = subprocess.run([PY, str(w / "go.py"), s, str(baseline(s))], env=env, cwd=w, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(file=file, line=line, kind=kind, diff=diff, by=s + " timeout")
            if "DIFF" in p.stdout or p.returncode != 0:
                return dict(file=file, line=line, kind=kind, diff=diff, by=s, note=p.stderr[-200:] if p.returncode else "")
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "log_cli=false", "-W", "ignore",
                            "--ignore=tests/pypsa_converter", *sum([["--deselect", l.split()[-1]] for l in (V / "tools" / "expected_failures.txt").read_text().splitlines() if l.strip()], [])], cwd=r, env=env, capture_output=True, text=True, timeout=600)
            tests = t.returncode != 0
        except subprocess.TimeoutExpired:
            tests = True
        return dict(file=file, line=line, kind=kind, diff=diff, by=None, tests=tests)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    import difflib
    out, per, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    jobs = []
    for f in files:
        src = Path("/repo", f).read_text()
        tree = ast.parse(src)
        plain = ast.unparse(tree)
        ms = list(mutations(tree))
        random.Random(seed).shuffle(ms)
        got = 0
        for n, line, fn, kind in ms:
            if got == per:
                break
            text = apply(tree, n, fn)
            if text == plain:
                continue
            try:
                compile(text, f, "exec")
            except Exception:
                continue
            d = [x for x in difflib.unified_diff(plain.splitlines(), text.splitlines(), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
            jobs.append((f, line, kind, text, d))
            got += 1
    for s in {s for f in files for s in suites_of(f)}:
        baseline(s)
    res = []
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
        for x in ex.map(one, jobs):
            res.append(x)
            Path(out).write_text(json.dumps(res, indent=1))
    print(len(res), "mutants,", sum(1 for x in res if x["by"]), "observed,", sum(1 for x in res if not x["by"] and x["tests"]), "killed by tests only,",
          sum(1 for x in res if not x["by"] and not x["tests"]), "survive")


if __name__ == "__main__":
    main()
