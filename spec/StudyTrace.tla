-------------------------------- MODULE StudyTrace -----------------------------
EXTENDS Study, TraceKit
Cmp1(clause, a, b) == IF a = b THEN {} ELSE LET d == DiffKeys(a, b) IN Fail(clause, Restr(a, d), Restr(b, d))
IdSet(cs) == {cs[j].id : j \in DOMAIN cs}
Verdict(ev) ==
  LET o == ev.obs
      p == IF ev.cli.wrong # "" THEN Err("command line") ELSE StudyProblem(ev.st, ev.req)
  IN IF p.k = "any" THEN {}
     ELSE IF p.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", p, "a problem was built"))
     ELSE IF o.k = "err" THEN Fail("rejected", "a problem", o)
     ELSE LET vs == ByName(o.v.vars, ObsVar)  rs == ByNameR(o.v.rows, ObsRow) IN
          (IF Len(o.v.vars) # Cardinality(DOMAIN vs)
           THEN Fail("duplicates", "unique names", Len(o.v.vars)) ELSE {})
          \cup Cmp1("variables", p.v.vars, vs)
          \cup Cmp1("constraints", p.v.rows, rs)
          \cup (IF o.v.obj.c = p.v.obj.c /\ o.v.obj.min THEN {} ELSE Fail("objective", p.v.obj.c, o.v.obj.c))
          \cup Cmp1("objective", p.v.obj.m, ObsM(o.v.obj.m))
          \cup Check("solved", <<1, TRUE>>, <<o.v.solves, o.v.report>>)
          \cup (IF ev.via = "cli" THEN {}
                ELSE Check("network", [nodes |-> IdSet(ev.st.nodes), comps |-> IdSet(ev.st.comps), all |-> SIds(ev.st)],
                           [nodes |-> Range1(o.v.nodes), comps |-> Range1(o.v.comps), all |-> Range1(o.v.all)]))
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
