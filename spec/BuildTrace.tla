-------------------------------- MODULE BuildTrace -----------------------------
(* One event: a system, several requests built one after the other on the same    *)
(* network and data objects, and the problems the code handed to the solver.      *)
EXTENDS Build, TraceKit
Cmp1(clause, a, b) == IF a = b THEN {} ELSE LET d == DiffKeys(a, b) IN Fail(clause, Restr(a, d), Restr(b, d))
OneBuild(sys, req, o) ==
  LET p == Problem(sys, req) IN
  IF req.border # "CYCLE" THEN (IF p.k = "ok" /\ TimeUsed(sys, req) /\ o.k = "ok" THEN Fail("accepted", "refused", "a problem was built") ELSE {})
  ELSE IF p.k = "any" THEN {}     \* mentions a variable which is not selected, with a zero coefficient
  ELSE IF p.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", p, "a problem was built"))
  ELSE IF o.k = "err" THEN Fail("rejected", "a problem", o)
  ELSE LET vs == ByName(o.v.vars, ObsVar)
           rs == ByNameR(o.v.rows, ObsRow)
       IN (IF Len(o.v.vars) # Cardinality(DOMAIN vs)
           THEN Fail("duplicates", "unique names", Len(o.v.vars)) ELSE {})
          \cup Cmp1("variables", p.v.vars, vs)
          \cup Cmp1("constraints", p.v.rows, rs)
          \cup (IF o.v.obj.c = p.v.obj.c THEN {} ELSE Fail("objective", p.v.obj.c, o.v.obj.c))
          \cup Cmp1("objective", p.v.obj.m, ObsM(o.v.obj.m))
          \cup (IF o.v.obj.min THEN {} ELSE Fail("objective", "minimised", "maximised"))
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "a network", o)
  ELSE UNION {OneBuild(ev.sys, ev.reqs[j], o.v[j]) : j \in DOMAIN ev.reqs}
       \cup (IF o.same THEN {} ELSE Fail("purity", "inputs unchanged by building", "changed"))
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
