----------------------------------- MODULE Study -------------------------------
(* A study directory (libraries, system description, series, scenario builder)    *)
(* and the system it denotes, or the reason why it is refused.                    *)
(*                                                                                *)
(* st = [libs : [lib -> [model -> model]], ptypes, nodes, comps, conns,           *)
(*       files : [name -> matrix], hasdir, scenarized, builder : <<[g, y, s]>>]   *)
(* component = [id, lib, model, dots, group, pars : <<[id, t, s, v, group]>>]     *)
(* v = [k |-> "num", v] or [k |-> "file", n]                                      *)
EXTENDS Build
Groups(st) == {st.builder[j].g : j \in DOMAIN st.builder}
YearsOf(st, g) == {st.builder[j].y : j \in {j \in DOMAIN st.builder : st.builder[j].g = g}}
RowsOf(st, g) == {j \in DOMAIN st.builder : st.builder[j].g = g}
BadBuilder(st) == st.scenarized /\ \E g \in Groups(st) : Cardinality(YearsOf(st, g)) # Cardinality(RowsOf(st, g))
\* scenario of each year of a group, as a sequence over years 0, 1, ...
YearMap(st, g) == [y \in 1..Cardinality(YearsOf(st, g)) |->
                     st.builder[CHOOSE j \in RowsOf(st, g) : st.builder[j].y = y - 1].s]
GroupOf(c, p) == IF p.group # "" THEN p.group ELSE c.group
Datum(st, c, p) ==
  LET g  == GroupOf(c, p)
      sc == IF st.scenarized /\ g # "" THEN YearMap(st, g) ELSE <<>>
      m  == st.files[p.v.n]
  IN IF p.v.k = "num" THEN [k |-> "const", v |-> p.v.v, sc |-> <<>>, n |-> <<>>]
     ELSE IF p.t /\ p.s THEN [k |-> "tsser", v |-> m, sc |-> sc, n |-> <<>>]
     ELSE IF p.t THEN [k |-> "tser", v |-> [j \in DOMAIN m |-> m[j][1]], sc |-> <<>>, n |-> <<>>]
     ELSE [k |-> "sser", v |-> m[1], sc |-> sc, n |-> <<>>]
BadDatum(st, c, p) ==
  \/ st.scenarized /\ GroupOf(c, p) # "" /\ GroupOf(c, p) \notin Groups(st)
  \/ IF p.v.k = "num" THEN p.t \/ p.s
     ELSE \/ ~st.hasdir \/ p.v.n \notin DOMAIN st.files
          \/ ~p.t /\ ~p.s
          \/ p.t /\ ~p.s /\ Len(st.files[p.v.n][1]) # 1
          \/ ~p.t /\ p.s /\ Len(st.files[p.v.n]) # 1
All(st) == st.nodes \o st.comps
BadData(st) == BadBuilder(st) \/ \E j \in DOMAIN All(st) : \E q \in DOMAIN All(st)[j].pars : BadDatum(st, All(st)[j], All(st)[j].pars[q])
BadRef(st, c) == c.dots # 1 \/ c.lib \notin DOMAIN st.libs \/ c.model \notin DOMAIN st.libs[c.lib]
MName(c) == c.lib \o "." \o c.model
SComp(st, id) == LET a == All(st) IN a[CHOOSE j \in DOMAIN a : a[j].id = id]
MOf(st, id) == LET c == SComp(st, id) IN st.libs[c.lib][c.model]
SIds(st) == {All(st)[j].id : j \in DOMAIN All(st)}
Defs(m, p, f) == \E j \in DOMAIN m.pfd : m.pfd[j].p = p /\ m.pfd[j].f = f
BadConn(st, k) ==
  \/ k.c1 \notin SIds(st) \/ k.c2 \notin SIds(st)
  \/ LET m1 == MOf(st, k.c1)  m2 == MOf(st, k.c2) IN
     \/ k.p1 \notin DOMAIN m1.ports \/ k.p2 \notin DOMAIN m2.ports
     \/ m1.ports[k.p1] # m2.ports[k.p2]
     \/ \E j \in DOMAIN st.ptypes[m1.ports[k.p1]] :
          LET f == st.ptypes[m1.ports[k.p1]][j] IN Defs(m1, k.p1, f) = Defs(m2, k.p2, f)
BadSystem(st) ==
  \/ Cardinality(SIds(st)) # Len(All(st))
  \/ \E j \in DOMAIN All(st) : BadRef(st, All(st)[j])
  \/ \E j \in DOMAIN st.conns : BadConn(st, st.conns[j])
\* the system, as the building specification takes it
LastPar(c, p) == c.pars[Max({j \in DOMAIN c.pars : c.pars[j].id = p})]
SystemOf(st) ==
  [models |-> [x \in {MName(All(st)[j]) : j \in DOMAIN All(st)} |->
                 LET c == All(st)[CHOOSE j \in DOMAIN All(st) : MName(All(st)[j]) = x] IN st.libs[c.lib][c.model]],
   comps |-> [j \in DOMAIN All(st) |-> [id |-> All(st)[j].id, model |-> MName(All(st)[j]), node |-> j <= Len(st.nodes)]],
   conns |-> st.conns, ptypes |-> st.ptypes,
   data |-> [x \in SIds(st) |-> LET c == SComp(st, x) IN
               [p \in {c.pars[j].id : j \in DOMAIN c.pars} |-> Datum(st, c, LastPar(c, p))]]]
StudyProblem(st, req) ==
  IF BadSystem(st) THEN Err("system") ELSE IF BadData(st) THEN Err("data") ELSE Problem(SystemOf(st), req)
================================================================================
