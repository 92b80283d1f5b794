------------------------------- MODULE ShippedTrace ----------------------------
EXTENDS Shipped, TraceKit
CmpV(a, b) == IF a = b THEN {} ELSE LET d == DiffKeys(a, b) IN Fail("variables", Restr(a, d), Restr(b, d))
CmpR(a, b) ==
  LET d == {x \in DOMAIN a \cup DOMAIN b : ~(x \in DOMAIN a /\ x \in DOMAIN b /\ SameRow(a[x], b[x]))}
  IN IF d = {} THEN {} ELSE Fail("constraints", Restr(a, d), Restr(b, d))
Verdict0(ev) ==
  LET o == ev.obs  p == ShippedProblem(ev.sys) IN
  IF p.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", p, "a problem was built"))
  ELSE IF o.k = "err" THEN Fail("rejected", "a problem", o)
  ELSE LET vs == ByName(o.v.vars, ObsVar)  rs == ByNameR(o.v.rows, ObsRow) IN
       (IF Len(o.v.vars) # Cardinality(DOMAIN vs) \/ Len(o.v.rows) # Cardinality(DOMAIN rs)
        THEN Fail("duplicates", "unique names", <<Len(o.v.vars), Len(o.v.rows)>>) ELSE {})
       \cup CmpV(p.v.vars, vs) \cup CmpR(p.v.rows, rs)
       \cup (IF o.v.obj.c = p.v.obj.c /\ o.v.obj.min THEN {} ELSE Fail("objective", p.v.obj.c, o.v.obj.c))
       \cup (IF p.v.obj.m = ObsM(o.v.obj.m) THEN {} ELSE Fail("objective", p.v.obj.m, ObsM(o.v.obj.m)))
Verdict(ev) == {[f EXCEPT !.clause = ev.fam \o " " \o f.clause] : f \in Verdict0(ev)}
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
