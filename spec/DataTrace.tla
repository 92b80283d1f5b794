-------------------------------- MODULE DataTrace ------------------------------
EXTENDS Data, TraceKit
Verdict(ev) ==
  IF ev.obs.k = "err" THEN Fail("crash", "outcomes", ev.obs)
  ELSE LET e == Outs(Start, ev.ops)  o == ev.obs.v IN
       UNION {IF e[j] = o[j] THEN {} ELSE Fail(ev.ops[j].op, [op |-> ev.ops[j], out |-> e[j]], o[j]) : j \in DOMAIN e}
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
