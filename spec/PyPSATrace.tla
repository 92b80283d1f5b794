------------------------------- MODULE PyPSATrace ------------------------------
EXTENDS PyPSA, TraceKit
Strip(c) == [id |-> c.id, model |-> c.model, pars |-> c.pars]
Set1(q) == {q[j] : j \in DOMAIN q}
ObsComp(c) == [id |-> c.id, model |-> c.model, pars |-> Set1(c.pars)]
CmpSet(clause, a, b, n) ==
  (IF a = b THEN {} ELSE Fail(clause, a \ b, b \ a))
  \cup (IF n[1] = n[2] THEN {} ELSE Fail(clause, n[1], n[2]))
CmpRows(a, b) ==
  LET d == {x \in DOMAIN a \cup DOMAIN b : ~(x \in DOMAIN a /\ x \in DOMAIN b /\ SameRow(a[x], b[x]))}
  IN IF d = {} THEN {} ELSE Fail("problem", Restr(a, d), Restr(b, d))
Same(p, o) ==
  IF p.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("problem", p, "a problem was built"))
  ELSE IF o.k = "err" THEN Fail("problem", "a problem", o)
  ELSE LET vs == ByName(o.v.vars, ObsVar)  rs == ByNameR(o.v.rows, ObsRow)  d == DiffKeys(p.v.vars, vs) IN
       (IF d = {} THEN {} ELSE Fail("problem", Restr(p.v.vars, d), Restr(vs, d)))
       \cup CmpRows(p.v.rows, rs)
       \cup (IF p.v.obj.m = ObsM(o.v.obj.m) /\ p.v.obj.c = o.v.obj.c /\ o.v.obj.min THEN {} ELSE Fail("problem", p.v.obj, o.v.obj))
Verdict(ev) ==
  LET o == ev.obs  net == ev.net IN
  IF ~Supported(net) THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", "refused", "converted"))
  ELSE IF o.k = "err" THEN Fail("rejected", "a system", o)
  ELSE CmpSet("components", {Strip(c) : c \in PComps(net)}, {ObsComp(o.v.comps[j]) : j \in DOMAIN o.v.comps}, <<Cardinality(PComps(net)), Len(o.v.comps)>>)
       \cup CmpSet("connections", PConns(net), Set1(o.v.conns), <<NPConns(net), Len(o.v.conns)>>)
       \cup (IF o.v.nodes = <<>> THEN {} ELSE Fail("components", "no node", o.v.nodes))
       \cup (IF ev.S = 0 THEN {} ELSE Same(ShippedProblem(PSystem(net, ev.S)), o.v.pb))
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
