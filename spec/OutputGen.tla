-------------------------------- MODULE OutputGen ------------------------------
(* All histories of at most MAXOPS edits of two result tables; the harness then   *)
(* compares and reads everything.                                                 *)
EXTENDS Output, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Vals == {[k |-> "n", v |-> R(4)], [k |-> "l", v |-> <<R(4)>>], [k |-> "l", v |-> <<R(4), R(5)>>], [k |-> "m", v |-> <<<<R(4), R(5)>>>>],
         [k |-> "m", v |-> <<<<R(4)>>, <<R(5)>>>>]}
Blank == [op |-> "", n |-> 1, m |-> 1, c |-> "A", v |-> "x", x |-> [k |-> "n", v |-> RZero], b |-> TRUE, rel |-> RZero, abs |-> RZero]
VARIABLES hist, h
Ops == {[Blank EXCEPT !.op = "set", !.n = n, !.v = v, !.x = x] : n \in 1..2, v \in {"x", "y"}, x \in Vals}
       \cup {[Blank EXCEPT !.op = "ignv", !.n = n, !.b = b] : n \in 1..2, b \in BOOLEAN}
       \cup {[Blank EXCEPT !.op = "ignc", !.n = n, !.b = b] : n \in 1..2, b \in BOOLEAN}
Init == hist = <<>> /\ h = << <<>>, <<>> >>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : hist' = Append(hist, o) /\ h' = StepT(h, o).h
Spec == Init /\ [][Next]_<<hist, h>>
\* comparison is reflexive and symmetric, and equal tables are close
Laws == \A a, b \in 1..2 :
          /\ NearTab(h[a], h[a], RZero, RZero)
          /\ \A q \in {<<RZero, RZero>>, <<<<1, 8>>, RZero>>, <<RZero, R(1)>>} :
               NearTab(h[a], h[b], q[1], q[2]) = NearTab(h[b], h[a], q[1], q[2])
          /\ NearTab(h[a], h[b], RZero, RZero) => NearTab(h[a], h[b], <<1, 8>>, R(1))
\* what is set is what is read, whatever was there before; the other table and variable stay
ReadBack == [][LET o == Last(hist') IN
               /\ o.op = "set" => Store(Show(VarT(h'[o.n], o.c, o.v).z)) = Store(o.x)
               /\ h'[3 - o.n] = h[3 - o.n]
               /\ o.op = "set" => \A v \in {"x", "y"} \ {o.v} : VarT(h'[o.n], o.c, v) = VarT(h[o.n], o.c, v)]_<<hist, h>>
Emit == hist = <<>> \/ PrintT("CASE " \o ToJson(hist))
================================================================================
