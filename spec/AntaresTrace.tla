------------------------------- MODULE AntaresTrace ----------------------------
EXTENDS Antares, TraceKit
Strip(c) == [id |-> c.id, model |-> c.model, pars |-> c.pars]
Of(cs, models) == {c \in cs : c.model \in models}
ThermalM == {FullName["thermal"]}
BatteryM == {FullName["battery"]}
Set1(q) == {q[j] : j \in DOMAIN q}
ObsComp(c) == [id |-> c.id, model |-> c.model, pars |-> Set1(c.pars)]
CmpSet(clause, a, b, n) ==
  (IF a = b THEN {} ELSE Fail(clause, a \ b, b \ a))
  \cup (IF n[1] = n[2] THEN {} ELSE Fail(clause, n[1], n[2]))
CmpRows(a, b) ==
  LET d == {x \in DOMAIN a \cup DOMAIN b : ~(x \in DOMAIN a /\ x \in DOMAIN b /\ SameRow(a[x], b[x]))}
  IN IF d = {} THEN {} ELSE Fail("problem", Restr(a, d), Restr(b, d))
Same(p, o) ==
  IF p.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("problem", p, "a problem was built"))
  ELSE IF o.k = "err" THEN Fail("problem", "a problem", o)
  ELSE LET vs == ByName(o.v.vars, ObsVar)  rs == ByNameR(o.v.rows, ObsRow)  d == DiffKeys(p.v.vars, vs) IN
       (IF d = {} THEN {} ELSE Fail("problem", Restr(p.v.vars, d), Restr(vs, d)))
       \cup CmpRows(p.v.rows, rs)
       \cup (IF p.v.obj.m = ObsM(o.v.obj.m) /\ p.v.obj.c = o.v.obj.c THEN {} ELSE Fail("problem", p.v.obj, o.v.obj))
\* every component has its own identifier, and connections join existing components
Identifiers(cs, ks) ==
  LET ids == {cs[j].id : j \in DOMAIN cs}
      twice == {x \in ids : Cardinality({j \in DOMAIN cs : cs[j].id = x}) > 1}
      lost == {ks[j] : j \in {j \in DOMAIN ks : ks[j].c1 \notin ids \/ ks[j].c2 \notin ids}}
  IN IF twice = {} /\ lost = {} THEN {} ELSE Fail("identifiers", "distinct and existing", [twice |-> twice, lost |-> lost])
Verdict(ev) ==
  LET o == ev.obs  st == ev.st IN
  IF o.k = "err" THEN Fail("rejected", "a system", o)
  ELSE CmpSet("areas", {Strip(c) : c \in ANodes(st)}, {ObsComp(o.v.nodes[j]) : j \in DOMAIN o.v.nodes}, <<Cardinality(ANodes(st)), Len(o.v.nodes)>>)
       \cup LET exp == {Strip(c) : c \in AComps(st)}  got == {ObsComp(o.v.comps[j]) : j \in DOMAIN o.v.comps} IN
            CmpSet("thermal", Of(exp, ThermalM), Of(got, ThermalM), <<0, 0>>)
            \cup CmpSet("batteries", Of(exp, BatteryM), Of(got, BatteryM), <<0, 0>>)
            \cup CmpSet("components", exp \ Of(exp, ThermalM \cup BatteryM), got \ Of(got, ThermalM \cup BatteryM), <<NComps(st), Len(o.v.comps)>>)
       \cup CmpSet("connections", AConns(st), Set1(o.v.conns), <<NConns(st), Len(o.v.conns)>>)
       \cup (IF ev.ids THEN Identifiers(o.v.nodes \o o.v.comps, o.v.conns) ELSE {})
       \cup (IF ev.T = 0 \/ CmpSet("c", {Strip(c) : c \in AComps(st)}, {ObsComp(o.v.comps[j]) : j \in DOMAIN o.v.comps}, <<NComps(st), Len(o.v.comps)>>) # {} THEN {}
             ELSE Same(ShippedProblem(AntaresSystem(st, ev.T, ev.S)), o.v.pb))
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
