--------------------------------- MODULE Network -------------------------------
(* Editing networks: nodes, components, connections, replicas.                    *)
(* The state is a heap of networks; models are given:                             *)
(* models[m] = [ports |-> [p |-> type], defs |-> <<[p, f]>>]                      *)
(* types[t]  = sequence of fields                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty == [id |-> "net", nodes |-> <<>>, comps |-> <<>>, conns |-> <<>>]
Ids(s) == {s[j].id : j \in DOMAIN s}
\* adding under an existing identifier replaces the element, in place
Put(s, x) == IF x.id \in Ids(s)
             THEN [j \in DOMAIN s |-> IF s[j].id = x.id THEN x ELSE s[j]]
             ELSE Append(s, x)
Find(s, id) == s[CHOOSE j \in DOMAIN s : s[j].id = id]
\* a component, or else a node
Known(n, id)  == id \in Ids(n.nodes) \cup Ids(n.comps)
Lookup(n, id) == IF id \in Ids(n.comps) THEN Find(n.comps, id) ELSE Find(n.nodes, id)

Defines(models, m, p, f) == \E j \in DOMAIN models[m].defs : models[m].defs[j].p = p /\ models[m].defs[j].f = f
\* reasons to refuse a connection between port p1 of model m1 and p2 of m2
Refuse(models, types, m1, p1, m2, p2) ==
  IF ~(p1 \in DOMAIN models[m1].ports /\ p2 \in DOMAIN models[m2].ports) THEN {"missing port"}
  ELSE LET t1 == models[m1].ports[p1]  t2 == models[m2].ports[p2] IN
       IF t1 # t2 THEN {"types"}
       ELSE UNION {LET f == types[t1][j]
                       d1 == Defines(models, m1, p1, f)
                       d2 == Defines(models, m2, p2, f)
                   IN IF d1 /\ d2 THEN {"two definitions"} ELSE IF ~d1 /\ ~d2 THEN {"no definition"} ELSE {}
                   : j \in DOMAIN types[t1]}
Masters(models, types, m1, p1) ==
  LET t == models[m1].ports[p1] IN
  [f \in {types[t][j] : j \in DOMAIN types[t]} |-> IF Defines(models, m1, p1, f) THEN 1 ELSE 2]

\* one operation on the heap: [h |-> heap, ok |-> was it accepted]
Step(models, types, h, op) ==
  LET n == h[op.n]
      yes(x) == [h |-> [h EXCEPT ![op.n] = x], ok |-> TRUE]
      no     == [h |-> h, ok |-> FALSE]
  IN CASE op.op = "node" -> yes([n EXCEPT !.nodes = Put(@, [id |-> op.a, m |-> op.m])])
       [] op.op = "comp" -> yes([n EXCEPT !.comps = Put(@, [id |-> op.a, m |-> op.m])])
       \* "link" connects components which the network need not hold
       [] op.op \in {"connect", "link"} ->
            IF op.op = "connect" /\ (~Known(n, op.a) \/ ~Known(n, op.b)) THEN no
            ELSE LET m1 == IF op.op = "link" THEN op.m ELSE Lookup(n, op.a).m
                     m2 == IF op.op = "link" THEN op.m2 ELSE Lookup(n, op.b).m IN
                 IF Refuse(models, types, m1, op.p, m2, op.q) # {} THEN no
                 ELSE yes([n EXCEPT !.conns = Append(@, [c1 |-> op.a, p1 |-> op.p, c2 |-> op.b, p2 |-> op.q,
                                                         type |-> models[m1].ports[op.p],
                                                         ms |-> Masters(models, types, m1, op.p)])])
       \* the last connection gets its ends exchanged
       [] op.op = "turn" ->
            IF n.conns = <<>> THEN no
            ELSE yes([n EXCEPT !.conns[Len(n.conns)] =
                        [c1 |-> @.c2, p1 |-> @.p2, c2 |-> @.c1, p2 |-> @.p1, type |-> @.type,
                         ms |-> [f \in DOMAIN @.ms |-> 3 - @.ms[f]]]])
       \* a replica, under another name if one is given
       [] op.op = "copy" -> [h |-> Append(h, IF op.a = "" THEN n ELSE [n EXCEPT !.id = op.a]), ok |-> TRUE]
RECURSIVE Run(_, _, _, _)
Run(models, types, h, ops) ==
  IF ops = <<>> THEN h ELSE Run(models, types, Step(models, types, h, ops[1]).h, Tail(ops))
RECURSIVE Outcomes(_, _, _, _)
Outcomes(models, types, h, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET r == Step(models, types, h, ops[1]) IN <<r.ok>> \o Outcomes(models, types, r.h, Tail(ops))
\* every connection has, for each field of its port type, exactly one defining side
WellWired(models, types, n) ==
  \A k \in DOMAIN n.conns : LET c == n.conns[k] IN
    \A j \in DOMAIN types[c.type] : c.ms[types[c.type][j]] \in {1, 2}
================================================================================
