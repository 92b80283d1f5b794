-------------------------------- MODULE LinAlgGen ------------------------------
EXTENDS LinAlg, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
x1 == <<"c", "x", 0, -1>>
y1 == <<"c", "y", -1, -1>>
nf(c, m) == [op |-> "new", a |-> 1, b |-> 1, inplace |-> FALSE, f |-> [c |-> c, m |-> m]]
T(y, v) == [y |-> y, v |-> v]
Start == << nf(R(1), <<T(x1, R(2))>>), nf(R(3), <<>>), nf(R(-1), <<T(x1, R(-2)), T(y1, R(4))>>) >>
VARIABLES hist, h
Run(hs) == FoldLeft(LAMBDA acc, s : Step(acc, s).h, <<>>, hs)
Init == hist = Start /\ h = Run(Start)
st(op, a, b, ip) == [op |-> op, a |-> a, b |-> b, inplace |-> ip, f |-> [c |-> RZero, m |-> <<>>]]
Steps == {st(op, a, b, ip) : op \in {"add", "sub", "mul", "div"}, a \in DOMAIN h, b \in DOMAIN h, ip \in BOOLEAN}
         \cup {st("neg", a, a, FALSE) : a \in DOMAIN h}
Next == /\ Len(hist) < MaxOps + 3
        /\ \E s \in Steps : hist' = Append(hist, s) /\ h' = Step(h, s).h
Spec == Init /\ [][Next]_<<hist, h>>
\* an operation changes at most the form it is applied to in place
Frame == [][\A j \in DOMAIN h : LET s == Last(hist') IN (s.inplace /\ s.a = j) \/ h'[j] = h[j]]_<<hist, h>>
Laws == \A j, l \in DOMAIN h :
          /\ Arith("add", h[j], h[l]) = Arith("add", h[l], h[j])
          /\ Arith("sub", Arith("add", h[j], h[l]).v, h[l]).v = h[j]
          /\ Arith("mul", h[j], h[l]) = Arith("mul", h[l], h[j])
Emit == PrintT("CASE " \o ToJson(hist))
================================================================================
