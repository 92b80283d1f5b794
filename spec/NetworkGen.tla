------------------------------- MODULE NetworkGen ------------------------------
(* All histories of at most MAXOPS operations over two identifiers.              *)
EXTENDS Network, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Models == [src |-> [ports |-> [p |-> "f"], defs |-> <<[p |-> "p", f |-> "flow"]>>],
           snk |-> [ports |-> [p |-> "f", q |-> "g"], defs |-> <<[p |-> "q", f |-> "flow"]>>],
           alt |-> [ports |-> [p |-> "g"], defs |-> <<[p |-> "p", f |-> "cost"]>>]]
Types == [f |-> <<"flow">>, g |-> <<"flow", "cost">>]
VARIABLES hist, h
o(op, n, a, m, b, p, q) == [op |-> op, n |-> n, a |-> a, m |-> m, b |-> b, p |-> p, q |-> q]
Ops == {o(k, n, a, m, "", "", "") : k \in {"node", "comp"}, n \in DOMAIN h, a \in {"A", "B"}, m \in DOMAIN Models}
       \cup {o("connect", n, a, "", b, p, q) : n \in DOMAIN h, a \in {"A", "B"}, b \in {"A", "B"},
                                              p \in {"p", "q"}, q \in {"p", "q"}}
       \cup {o("copy", n, "", "", "", "", "") : n \in DOMAIN h}
Init == hist = <<>> /\ h = <<Empty>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops : hist' = Append(hist, op) /\ h' = Step(Models, Types, h, op).h
Spec == Init /\ [][Next]_<<hist, h>>
\* an operation on one network leaves the others alone
Frame == [][\A j \in DOMAIN h : Last(hist').n = j \/ h'[j] = h[j]]_<<hist, h>>
Wired == \A j \in DOMAIN h : WellWired(Models, Types, h[j])
Emit == Len(hist) < MaxOps \/ PrintT("CASE " \o ToJson(hist))
================================================================================
