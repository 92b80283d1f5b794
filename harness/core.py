"""Shared machinery: numbers, TLC runs, parallel execution of the code under test."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ numbers
def num(x):
    """A Python number as an exact pair [n, d]; [0, 0] when it has no small form."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [0, 0]
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [1, 0] if x > 0 else [-1, 0]
    if abs(x) > 2_000_000_000:
        return [0, 0]
    f = Fraction(x).limit_denominator(20000)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)):
        return [0, 0]
    if abs(f.numerator) > 2_000_000_000:
        return [0, 0]
    return [f.numerator, f.denominator]


def fine(x):
    """Like num, for numbers which are only handed over: very small and very precise ones keep their value."""
    try:
        f = Fraction(float(x))
    except (TypeError, ValueError, OverflowError):
        return num(x)
    for limit in (20000, 2_000_000_000):
        g = f.limit_denominator(limit)
        if abs(g - f) <= abs(f) / 10 ** 12 and abs(g.numerator) <= 2_000_000_000:
            return [g.numerator, g.denominator]
    return num(x)


def unnum(p):
    if p[1] == 0:
        return math.inf if p[0] > 0 else -math.inf
    return p[0] / p[1]


def attempt(fn, *a, **k):
    """Outcome of calling the code under test: a value or an error, never an exception."""
    try:
        return {"k": "ok", "v": fn(*a, **k)}
    except RecursionError:
        return {"k": "err", "v": "RecursionError"}
    except Exception as e:  # noqa
        return {"k": "err", "v": type(e).__name__}


# ---------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, states, distinct, wall):
        self.out, self.states, self.distinct, self.wall = out, states, distinct, wall


class Incomparable(Exception):
    """The specification cannot even compare what the code did in event number i with what it should do."""

    def __init__(self, i, out):
        self.i, self.out = i, out
        super().__init__(f"TLC failed (i = {i}):\n" + out[-3000:])


def run_tlc(module, env=None, timeout=840, heap="6g", workers=NPROC, cfg=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta,
           "-config", cfg or f"{module}.cfg", *extra, f"{module}.tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m is None or "Error:" in out or "No error has been found" not in out:
        at = re.findall(r"(?m)^(?:/\\ )?i = (\d+)$", out)
        if at and "Attempted to" in out and "OutOfMemory" not in out and "StackOverflow" not in out:
            raise Incomparable(int(at[-1]), out)
        short = re.sub(r"(?ms)^State \d+:.*?\n\n", "", out)
        raise MachineryError(f"TLC failed on {module} (i = {at[-1:]}):\n{short[-4000:]}")
    return Tlc(out, int(m.group(1)), int(m.group(2)), time.time() - t0)


def _unquote(line):
    return json.loads(json.loads(line))


def tlc_cases(module, env=None, **kw):
    """Cases a generating specification prints (lines "CASE <json>")."""
    r = run_tlc(module, env, **kw)
    cases = []
    for line in r.out.splitlines():
        if line.startswith('"CASE '):
            cases.append(json.loads(json.loads(line)[5:]))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cases, r


def tlc_validate(module, events, timeout=840, **kw):
    """Checks recorded events against a trace specification.

    Returns (mismatches, tlc) where a mismatch is {"i": event, "f": {...}}."""
    if not events:
        raise MachineryError(f"no events for {module}")
    d = tempfile.mkdtemp(prefix="trace_")
    try:
        f = os.path.join(d, "trace.ndjson")
        with open(f, "w") as h:
            for ev in events:
                h.write(json.dumps(ev) + "\n")
        mism = []
        try:
            r = run_tlc(module, {"TRACE": f}, timeout=timeout, **kw)
        except Incomparable as e:
            # an observation of another shape than the specified one: a disagreement in itself
            why = re.search(r"Attempted to.*", e.out).group(0)[:300]
            mism.append({"i": e.i - 1, "f": {"clause": "shape", "exp": why, "got": json.dumps(events[e.i - 1].get("obs"))[:600]}})
            r = Tlc(e.out, e.i, e.i, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for line in r.out.splitlines():
        if line.startswith('"MISMATCH '):
            mism.append(json.loads(json.loads(line)[9:]))
    m = re.search(r'"EVENTS (\d+)"', r.out)
    if not m or int(m.group(1)) != len(events):
        raise MachineryError(f"{module} did not load all events:\n{r.out[-2000:]}")
    mism.sort(key=lambda x: (x["i"], json.dumps(x, sort_keys=True)))
    return mism, r


# ------------------------------------------------- running the code under test
def run_inputs(suite, inputs, timeout=600, hashseed="0"):
    """Runs suite.run on every input in worker processes; returns observations."""
    d = tempfile.mkdtemp(prefix="run_")
    obs = [None] * len(inputs)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=hashseed,
               PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + "/src:" + str(VERIF / "harness"), TMPDIR=d)
    n = max(1, min(NPROC, len(inputs) // 4 or 1))
    todo = [list(range(j, len(inputs), n)) for j in range(n)]
    deadline = time.time() + timeout
    try:
        live = {}

        def launch(j):
            if not todo[j]:
                return
            fi, fo = f"{d}/{j}.in", f"{d}/{j}.out"
            with open(fi, "w") as h:
                for i in todo[j]:
                    h.write(json.dumps(inputs[i]) + "\n")
            open(fo, "w").close()
            live[j] = subprocess.Popen(
                [PY, str(VERIF / "harness" / "worker.py"), suite, fi, fo],
                env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open(f"{d}/{j}.err", "w"))

        def collect(j):
            done = [json.loads(x) for x in open(f"{d}/{j}.out").read().splitlines() if x.endswith("}")]
            for i, o in zip(todo[j], done):
                obs[i] = o
            rc = live.pop(j).returncode
            rest = todo[j][len(done):]
            if rest:
                if rc == 3:      # error in the harness itself
                    raise MachineryError(open(f"{d}/{j}.err").read()[-4000:])
                obs[rest[0]] = {"k": "err", "v": "crash"}
                rest = rest[1:]
            todo[j] = rest

        for j in range(n):
            launch(j)
        while live:
            for j in list(live):
                p = live[j]
                if p.poll() is not None:
                    collect(j)
                    launch(j)
                elif time.time() > deadline:
                    p.kill()
                    p.wait()
                    done = len(open(f"{d}/{j}.out").read().splitlines())
                    for i in todo[j][done:]:
                        obs[i] = {"k": "err", "v": "timeout"}
                    todo[j] = todo[j][:done]
                    collect(j)
            time.sleep(0.02)
    finally:
        for p in list(live.values()):
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    return obs
