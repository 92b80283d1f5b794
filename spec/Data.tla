----------------------------------- MODULE Data --------------------------------
(* The data base: a history of additions, of years added to scenarizations (which *)
(* several data may share), and of reads.                                         *)
(*                                                                                *)
(* datum = [k, v, z, n]: k the kind, v the values, z the scenarization or "",     *)
(* n the data per tree node.  t, s = -1 stand for an absent index.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
DOk(v) == [k |-> "ok", v |-> v]
DErr   == [k |-> "err"]
\* value read in a datum; sc: scenarizations, as functions from years to scenarios
RECURSIVE Access(_, _, _, _, _)
Access(d, sc, t, s, node) ==
  LET scen == IF d.z = "" THEN s
              ELSE IF s \in DOMAIN sc[d.z] THEN sc[d.z][s] ELSE -1
      inT  == t >= 0 /\ t < Len(d.v)
  IN CASE d.k = "const" -> DOk(d.v)
       [] d.k = "tser"  -> IF inT THEN DOk(d.v[t + 1]) ELSE DErr
       [] d.k = "sser"  -> IF scen >= 0 /\ scen < Len(d.v) THEN DOk(d.v[scen + 1]) ELSE DErr
       [] d.k = "tsser" -> IF inT /\ scen >= 0 /\ scen < Len(d.v[1]) THEN DOk(d.v[t + 1][scen + 1]) ELSE DErr
       [] d.k = "tree"  -> IF node \in DOMAIN d.n THEN Access(d.n[node], sc, t, s, "") ELSE DErr
\* may the datum stand for a parameter which depends on time (bt), on scenario (bs)?
RECURSIVE Fits(_, _, _)
Fits(d, bt, bs) ==
  CASE d.k = "const" -> TRUE
    [] d.k = "tser"  -> bt
    [] d.k = "sser"  -> bs
    [] d.k = "tsser" -> bt /\ bs
    [] d.k = "tree"  -> \A n \in DOMAIN d.n : Fits(d.n[n], bt, bs)
\* state: db, a function from <<component, parameter>> to data; sc
Start == [db |-> <<>>, sc |-> <<>>]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Step(st, op) ==
  LET key == <<op.c, op.p>> IN
  CASE op.op = "new"  -> [st |-> [st EXCEPT !.sc = With(@, op.z, <<>>)], out |-> DOk("done")]
    [] op.op = "year" -> IF op.y \in DOMAIN st.sc[op.z] THEN [st |-> st, out |-> DErr]
                         ELSE [st |-> [st EXCEPT !.sc[op.z] = With(@, op.y, op.s)], out |-> DOk("done")]
    [] op.op = "add"  -> [st |-> [st EXCEPT !.db = With(@, key, op.d)], out |-> DOk("done")]
    [] op.op = "get"  -> [st |-> st,
                          out |-> IF key \in DOMAIN st.db THEN Access(st.db[key], st.sc, op.t, op.s, op.node) ELSE DErr]
    [] op.op = "fits" -> [st |-> st,
                          out |-> IF key \in DOMAIN st.db THEN DOk(Fits(st.db[key], op.bt, op.bs)) ELSE DErr]
    [] op.op = "consistent" ->
         [st |-> st,
          out |-> IF \A j \in DOMAIN op.comps : \A q \in DOMAIN op.comps[j].pars :
                       /\ <<op.comps[j].id, q>> \in DOMAIN st.db
                       /\ Fits(st.db[<<op.comps[j].id, q>>], op.comps[j].pars[q].t, op.comps[j].pars[q].s)
                  THEN DOk("done") ELSE DErr]
    \* conversions of tables, and tables read from a file
    [] op.op = "series" ->
         [st |-> st,
          out |-> IF op.kind = "time"
                  THEN (IF Len(op.m[1]) # 1 THEN DErr ELSE DOk([j \in DOMAIN op.m |-> op.m[j][1]]))
                  ELSE (IF Len(op.m) # 1 THEN DErr ELSE DOk(op.m[1]))]
    [] op.op = "file" -> [st |-> st, out |-> IF op.missing THEN DErr ELSE DOk(op.m)]
RECURSIVE Outs(_, _)
Outs(st, ops) == IF ops = <<>> THEN <<>>
                 ELSE LET r == Step(st, ops[1]) IN <<r.out>> \o Outs(r.st, Tail(ops))
================================================================================
