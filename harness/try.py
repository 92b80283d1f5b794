import sys, time, json, importlib, collections
sys.path.insert(0, __file__.rsplit("/", 1)[0] or ".")
import core
name, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
m = importlib.import_module("suite_" + name)
t = time.time()
inputs, info = m.gen(tier, int(sys.argv[3]) if len(sys.argv) > 3 else 1)
print("gen", len(inputs), info, time.time() - t); t = time.time()
obs = core.run_inputs(name, inputs)
print("run", time.time() - t); t = time.time()
events = [dict(i, obs=o) for i, o in zip(inputs, obs)]
mm, r = core.tlc_validate(m.TRACE, events)
print("tlc", time.time() - t, r.distinct, "mismatches", len(mm))
print(collections.Counter(x["f"]["clause"] for x in mm))
for x in mm[:int(sys.argv[4]) if len(sys.argv) > 4 else 3]:
    print(json.dumps(events[x["i"]])[:int(sys.argv[5]) if len(sys.argv) > 5 else 300]); print(json.dumps(x["f"])[:700]); print()
