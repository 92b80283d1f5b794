"""Runs one suite's inputs against the code under test; one JSON line per input."""
import faulthandler
import importlib
import json
import sys
import traceback


def main():
    faulthandler.enable()
    sys.setrecursionlimit(5000)
    suite, fi, fo = sys.argv[1:4]
    try:
        mod = importlib.import_module("suite_" + suite)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    with open(fi) as h, open(fo, "a") as out:
        for line in h:
            inp = json.loads(line)
            try:
                obs = mod.run(inp)
            except Exception as e:
                # raised by the code, or by what it returned being of no known form
                obs = {"k": "err", "v": "uncaught " + type(e).__name__}
                traceback.print_exc()
            out.write(json.dumps(obs) + "\n")
            out.flush()


main()
