"""check.py <property> [quick|thorough]        decide one property
   check.py --replay <file>                  re-run one recorded violation

Exit 0: the property held on everything explored (known findings are printed).
Exit 1: a violation, with a VIOLATION line.  Exit 2: failure of the machinery."""
import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import core  # noqa: E402
from registry import PROPERTIES  # noqa: E402

KNOWN = core.VERIF / "known-findings.jsonl"


def known_findings(prop):
    res = []
    for line in KNOWN.read_text().splitlines():
        if line.startswith("{"):
            k = json.loads(line)
            if k["property"] == prop:
                res.append(k)
    return res


def matches(known, suite, event, fail):
    """A finding is identified by suite, clause and the value of its input key."""
    return (known["suite"] == suite and known["clause"] == fail["clause"]
            and all(event.get(a) == b for a, b in known.get("input", {}).items())
            and (known.get("got") is None or known["got"] in fail["got"]))


def check(prop, tier, seed):
    t0 = time.time()
    spec = PROPERTIES[prop]
    known = known_findings(prop)
    hit, violations, samples = {}, [], []
    states = transitions = traces = 0
    per_suite = {}
    for suite, clauses in spec["suites"].items():
        mod = importlib.import_module("suite_" + suite)
        inputs, info = mod.gen(tier, seed)
        if hasattr(mod, "execute"):
            obs = mod.execute(inputs)
        else:
            obs = core.run_inputs(suite, inputs)
        events = [dict(i, obs=o) for i, o in zip(inputs, obs)]
        mism, r = core.tlc_validate(mod.TRACE, events)
        states += r.distinct + info.get("gen_states", 0)
        transitions += r.states + info.get("gen_transitions", 0)
        traces += len(events)
        per_suite[suite] = dict(info, events=len(events), mismatches=len(mism), clauses=sorted(clauses))
        mid = events[len(events) // 2]
        s = json.dumps(mid)
        samples.append({"suite": suite, "event": mid if len(s) < 3000 else s[:3000]})
        for m in mism:
            f = m["f"]
            if clauses and f["clause"] not in clauses and f["clause"] not in ("crash", "shape"):
                continue
            ev = events[m["i"]]
            k = next((k for k in known if matches(k, suite, ev, f)), None)
            if k is not None:
                hit.setdefault(k["id"], k)
            else:
                violations.append((suite, ev, f))
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = core.VERIF / "replay"
    if violations:
        rdir.mkdir(exist_ok=True)
    for n, (suite, ev, f) in enumerate(violations[:5]):
        path = rdir / f"{prop}-{n}.json"
        path.write_text(json.dumps({"property": prop, "suite": suite, "event": ev, "fail": f}, indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  suite {suite}, clause {f['clause']}\n  expected {f['exp'][:600]}\n  observed {f['got'][:600]}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": states, "transitions": transitions,
                       "traces_validated_against_impl": traces,
                       "suites": per_suite, "samples": samples},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    (core.VERIF / "evidence").mkdir(exist_ok=True)
    (core.VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} [{tier}] {traces} events validated, {states} states, "
          f"{len(violations)} violations, {ev['wall_s']} s")
    return 1 if violations else 0


def replay(path):
    rec = json.loads(Path(path).read_text())
    mod = importlib.import_module("suite_" + rec["suite"])
    inp = {k: v for k, v in rec["event"].items() if k != "obs"}
    obs = mod.execute([inp]) if hasattr(mod, "execute") else core.run_inputs(rec["suite"], [inp])
    mism, _ = core.tlc_validate(mod.TRACE, [dict(inp, obs=obs[0])])
    for m in mism:
        print(json.dumps(m["f"], indent=1))
    print("reproduced" if mism else "not reproduced")
    return 1 if mism else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    return check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))


try:
    rc = main()
except core.MachineryError as e:
    print("MACHINERY", e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
