------------------------------ MODULE BendersTrace -----------------------------
(* A history of operations on decision trees sharing one data base: nodes added,  *)
(* couplings defined, decompositions built.                                       *)
EXTENDS Benders, TraceKit
Cmp1(clause, a, b) == IF a = b THEN {} ELSE LET d == DiffKeys(a, b) IN Fail(clause, Restr(a, d), Restr(b, d))
Cols(p) == [j \in DOMAIN p.vars |-> p.vars[j].name]
Same(which, p, o) ==
  LET vs == ByName(o.vars, ObsVar)  rs == ByNameR(o.rows, ObsRow) IN
  (IF Len(o.vars) # Cardinality(DOMAIN vs)
   THEN Fail(which, "unique names", Len(o.vars)) ELSE {})
  \cup Cmp1(which, p.vars, vs) \cup Cmp1(which, p.rows, rs)
  \cup (IF o.obj.c = p.obj.c /\ o.obj.min THEN {} ELSE Fail(which, p.obj.c, o.obj.c))
  \cup Cmp1(which, p.obj.m, ObsM(o.obj.m))
Built(w, h, op, o) ==
  LET d == Decomposition(w, h, op.at) IN
  IF d.k = "any" THEN {}
  ELSE IF op.border # "CYCLE"
  THEN (IF d.k = "ok" /\ o.k = "ok" /\ \E y \in Range1(Parts(w, h, op.at)) :
             y[2] # 0 /\ TimeUsed(SysOf(w, h[y[1]].net), SubReq(w, h[y[1]], w.cfg[h[y[1]].id].blocks[y[2]]))
        THEN Fail("accepted", "border refused", "built") ELSE {})
  ELSE IF d.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail(IF ProbOk(h, op.at) THEN "accepted" ELSE "probability", d, "built"))
  ELSE IF o.k = "err" THEN Fail("rejected", "a decomposition", o)
  ELSE Same("master", d.v.master, o.v.master)
       \cup Check("names", <<"master", [j \in DOMAIN d.v.subs |-> d.v.subs[j].name]>>,
                  <<o.v.name, [j \in DOMAIN o.v.subs |-> o.v.subs[j].name]>>)
       \cup (IF Len(d.v.subs) # Len(o.v.subs) THEN {}
             ELSE UNION {Same("subproblem", d.v.subs[j].p, o.v.subs[j].p) : j \in DOMAIN d.v.subs})
       \cup (LET e == Structure(Cols(o.v.master), [j \in DOMAIN o.v.subs |-> [name |-> o.v.subs[j].name, cols |-> Cols(o.v.subs[j].p)]])
                g == {<<o.v.structure[j].p, o.v.structure[j].v, o.v.structure[j].c>> : j \in DOMAIN o.v.structure}
            IN IF o.v.subs = <<>> THEN {}
               ELSE IF e = g /\ Len(o.v.structure) = Cardinality(g) THEN {}
               ELSE Fail("structure", e \ g, <<g \ e, Len(o.v.structure)>>))
       \cup Check("files", op.opts, o.v.opts)
       \cup Check("files", [j \in DOMAIN o.v.files |-> TRUE], o.v.files)
Varset(w) == [m \in DOMAIN w.models |-> DOMAIN w.models[m].vars]
RECURSIVE Play(_, _, _, _)
Play(w, h, ops, outs) ==
  IF ops = <<>> THEN {}
  ELSE LET op == ops[1]  o == outs[1] IN
       CASE op.op = "build" -> Built(w, h, op, o) \cup Play(w, h, Tail(ops), Tail(outs))
         [] op.op = "add" ->
              LET r == AddNode(h, op)
                  good == r.ok = (o.k = "ok") /\ (r.ok => o.v = [j \in DOMAIN r.h |-> r.h[j].prob])
              IN IF ~good THEN Fail("probability", r, o)
                 ELSE Play(w, r.h, Tail(ops), Tail(outs))
         [] op.op = "define" ->
              LET r == Define(h, [j \in DOMAIN w.nets |-> w.nets[j].comps], Varset(w), op) IN
              IF r.ok # (o.k = "ok") THEN Fail("coupling", r, o) ELSE Play(w, r.h, Tail(ops), Tail(outs))
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "an outcome", o)
  ELSE Play(ev.w, <<>>, ev.ops, o.v)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
