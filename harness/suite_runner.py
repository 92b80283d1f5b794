"""Runs of the external Benders solver, replaced by a stand-in that records its call."""
import random

from core import attempt, tlc_cases
import suite_benders as SB

TRACE = "RunnerTrace"


def gen(tier, seed):
    r = random.Random(seed * 3 + 2)
    fix = {"solver": "XPRESS", "log": 0, "start": True, "fresh": False, "debug": False}
    ops = [dict(fix, merge=m, rc=c, cost=k) for m in (False, True) for c in (0, 3) for k in (-1, 7, 9)]
    # the command exists but cannot be started
    ops += [dict(fix, merge=m, rc=0, cost=7, start=False) for m in (False, True)]
    cases, t = tlc_cases("RunnerGen", {"MAXOPS": 2 if tier == "quick" else 3})
    hs = cases if tier == "quick" else r.sample(cases, min(len(cases), 9000))

    def vary(o):
        # fresh: the export directory is removed before the run
        return dict(o, solver=r.choice(["XPRESS", "COIN", "CBC", "Coin", "cbc"]), log=r.choice([0, 1, 3, 2]), rc=r.choice([0, 0, o["rc"], o["rc"], 1, 2, 4, 137, 255, -9]),
                    fresh=r.random() < 0.15, debug=r.random() < 0.4)

    hs += [[vary(r.choice(ops)) for _ in range(r.choice([3, 4, 5]))] for _ in range(200 if tier == "quick" else 1500)]
    inputs = [{"kind": "runs", "ops": h} for h in hs]
    words = ["options.json", "-f", "a b", "", "*", "$HOME", "--n=1", "x;y"]
    for _ in range(100 if tier == "quick" else 1000):
        inputs.append({"kind": "command", "args": [r.choice(words) for _ in range(r.randrange(5))], "rc": r.choice([0, 0, 1, 2, 3, 200, 255, -9]),
                       "start": r.random() < 0.9, "dir": r.choice(["out", "out/lp", "", "abs"]), "bin": r.choice(["bin/tool", "tool", "abs"]),
                       "times": r.choice([1, 1, 2])})
    return inputs, {"gen_states": t.distinct, "gen_transitions": t.states}


STAND_IN = """#!/bin/sh
# records how it was called; writes the solution it was told to, where the options say
[ "$*" = "options.json" ] && [ -f options.json ] && [ -f master.mps ] && [ -f structure.txt ] || exit 77
opt() { sed -n 's/^ *"'$1'": *"\\{0,1\\}\\([^",]*\\).*/\\1/p' options.json; }
echo "$(basename "$0") $(opt SOLVER_NAME) $(opt LOG_LEVEL)" > ../../called
. ../../plan
if [ "$COST" != -1 ]; then
  mkdir -p "$(dirname "$(opt JSON_FILE)")"
  cat > "$(opt JSON_FILE)" <<END
{"run_duration": $((COST + 9)),
 "solution": {"overall_cost": $COST, "values": {"x": $((COST + 1)), "y": $((COST + 2))},
              "investment_cost": $((COST - 4)), "operational_cost": 4,
              "problem_status": "OPTIMAL$COST", "stopping_criterion": "gap$COST",
              "optimality_gap": $((COST + 3)), "relative_gap": $((COST + 5)),
              "lb": $((COST + 6)), "ub": $((COST + 7)), "iteration": $((COST + 8))}}
END
fi
[ $RC -lt 0 ] && kill $RC $$
exit $RC
"""


def figures(s, kind):
    """Everything the solution held shows."""
    if s is None:
        return []
    n = lambda x: int(x) if int(x) == x else str(x)
    return ["investment", n(s.investment_cost), "operation", n(s.operational_cost),
            " ".join(["candidates"] + sorted(s.candidates)), *[n(s.candidates[k]) for k in sorted(s.candidates)],
            "gaps", n(s.absolute_gap), n(s.relative_gap), "status", s.status, "stopped", s.stopping_criterion] + (
        ["bounds", n(s.lower_bound), n(s.upper_bound)] if kind == "merged" else
        ["iterations", n(s.nb_iterations), "duration", n(s.duration)])


def command(inp):
    """One external command with its own arguments."""
    import os
    import shutil
    import tempfile
    from pathlib import Path

    from andromede.simulation.runner import CommandRunner

    old = os.getcwd()
    tmp = Path(tempfile.mkdtemp()).resolve()
    try:
        os.chdir(tmp)
        b = tmp / "bin/tool" if inp["bin"] == "abs" else Path(inp["bin"])
        b.parent.mkdir(exist_ok=True)
        b.write_text(f'#!/bin/sh\n[ $# = 0 ] || printf "%s\\n" "$@" >> {tmp}/args\npwd >> {tmp}/dirs\n' + (f"kill {inp['rc']} $$\n" if inp["rc"] < 0 else f"exit {inp['rc']}\n"))
        b.chmod(0o755 if inp["start"] else 0o644)
        d = tmp / "abs" if inp["dir"] == "abs" else Path(inp["dir"])
        d.mkdir(parents=True, exist_ok=True)
        where = str(d.resolve())
        c = CommandRunner(b, list(inp["args"]), d)
        rcs = []
        for _ in range(inp["times"]):
            r = attempt(c.run)
            rcs.append(str(r["v"]) if r["k"] == "ok" else "error")
        lines = lambda n: (tmp / n).read_text().split("\n")[:-1] if (tmp / n).exists() else []
        return {"k": "ok", "v": {"rcs": rcs, "args": lines("args"), "dirs": [x == where for x in lines("dirs")], "cwd": os.getcwd() == str(tmp)}}
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def run(inp):
    if inp["kind"] == "command":
        return command(inp)
    import os
    import shutil
    import tempfile
    from pathlib import Path

    from andromede.simulation import TimeBlock
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
    from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
    import systems as Y

    w = SB.small_world()
    sys = {"models": w["models"], "ptypes": {}, "data": w["data"], "comps": w["nets"][0]["comps"], "conns": []}
    old = os.getcwd()
    tmp = Path(tempfile.mkdtemp()).resolve()
    try:
        (tmp / "bin").mkdir()
        for b in ("benders", "merge_mps"):
            f = tmp / "bin" / b
            f.write_text(STAND_IN)
            f.chmod(0o755)
        os.chdir(tmp)

        def all_():
            node = DecisionTreeNode("n1", InterDecisionTimeScenarioConfig([TimeBlock(1, [0])], 1), Y.real_network(sys))
            d = build_benders_decomposed_problem(node, Y.real_database(sys))
            d.emplacement = Path("out/lp")
            outs = []
            for op in inp["ops"]:
                if op["fresh"]:
                    shutil.rmtree(tmp / "out", ignore_errors=True)
                (tmp / "plan").write_text(f"COST={op['cost']}\nRC={op['rc']}\n")
                called = tmp / "called"
                if called.exists():
                    called.unlink()
                for b in ("benders", "merge_mps"):
                    (tmp / "bin" / b).chmod(0o755 if op["start"] else 0o644)
                for x in (tmp / "out").rglob("*.lp"):
                    x.unlink()
                ok = attempt(d.run, should_merge=op["merge"], show_debug=op["debug"], solver_name=op["solver"], log_level=op["log"])
                ok = ("yes" if ok["v"] else "no") if ok["k"] == "ok" else "error"
                cmd = called.read_text().strip() if called.exists() else "nothing"
                s = d.solution
                sol = {"kind": "none", "cost": -1} if s is None else {
                    "kind": {"BendersMergedSolution": "merged", "BendersDecomposedSolution": "decomposed"}[type(s).__name__],
                    "cost": int(s.overall_cost)}
                lp = any((tmp / "out").rglob("*.lp"))
                outs.append({"ok": ok, "sol": sol, "figures": figures(s, sol["kind"]), "lp": lp, "cmd": cmd, "cwd": os.getcwd() == str(tmp)})
                os.chdir(tmp)
            return outs

        res = attempt(all_)
        return res
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
