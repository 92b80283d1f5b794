------------------------------- MODULE OutputTrace -----------------------------
EXTENDS Output, TraceKit
Sol(s) == [x \in {s[j].n : j \in DOMAIN s} |-> s[CHOOSE j \in DOMAIN s : s[j].n = x].v]
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "an outcome", o)
  ELSE IF ev.kind = "tables"
  THEN LET e == OutsT([j \in 1..ev.heap |-> <<>>], ev.ops) IN
       UNION {IF e[j] = o.v[j] THEN {} ELSE Fail(ev.ops[j].op, <<ev.ops[j], e[j]>>, o.v[j]) : j \in DOMAIN e}
  ELSE IF ev.kind = "problem"
  THEN IF o.v.skip THEN {}
       ELSE LET e == TableOf(ev.sys, ev.req, Sol(o.v.sol)) IN
            IF e = o.v.out THEN {} ELSE Fail("solution", e, o.v.out)
  ELSE LET same == ev.a.cost = ev.b.cost /\ ev.a.cands = ev.b.cands
           near == /\ NearVal(ev.a.cost, ev.b.cost, ev.rel, ev.abs)
                   /\ DOMAIN ev.a.cands = DOMAIN ev.b.cands
                   /\ \A c \in DOMAIN ev.a.cands : NearVal(ev.a.cands[c], ev.b.cands[c], ev.rel, ev.abs)
       IN Check("benders", <<same, near>>, o.v)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
