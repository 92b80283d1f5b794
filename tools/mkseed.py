"""mkseed.py <definition.py>: confirms a planted bug in a scratch copy and stores it in seeded/.

The definition sets ID, PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
d = runpy.run_path(sys.argv[1])
w = Path(tempfile.mkdtemp(prefix="seed_"))
try:
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["cp", "-a", "/repo", str(w / "r")], check=True)
    r = w / "r"
    for f, old, new in d["EDITS"]:
        s = (r / f).read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        (r / f).write_text(s.replace(old, new))
    diff = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True, check=True).stdout
    out = w / "s"
    out.mkdir()
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(d["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text('#!/bin/bash\n# cwd: the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (out / "meta.json").write_text(json.dumps({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, indent=1) + "\n")
    a = subprocess.run(["bash", str(out / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", str(out / "demo.sh")], cwd=r, capture_output=True, text=True)
    print("demo unchanged", a.returncode, a.stdout[-300:], a.stderr[-600:])
    print("demo changed", b.returncode, b.stderr.strip().splitlines()[-1:] )
    ok = a.returncode == 0 and b.returncode != 0
    env = dict(os.environ, PYTHONPATH=str(r / "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "log_cli=false", "-W", "ignore",
                        "--continue-on-collection-errors", "--ignore=tests/pypsa_converter"], cwd=r, env=env, capture_output=True, text=True)
    fails = sorted(l.split(" - ")[0] for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))
    print(t.stdout.strip().splitlines()[-1])
    base = (V / "tools" / "expected_failures.txt")
    exp = base.read_text().split("\n") if base.exists() else []
    extra = [f for f in fails if f not in exp]
    print("EXTRA FAILURES", len(extra), extra[:4])
    if ok and not extra:
        dst = V / "seeded" / d["ID"]
        if dst.exists(): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        print("STORED", dst)
    else:
        print("NOT STORED")
finally:
    shutil.rmtree(w)
