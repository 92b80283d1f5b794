---------------------------------- MODULE OpsGen -------------------------------
(* All histories of at most MAXOPS operations on {x, p}.                          *)
EXTENDS Ops, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
ref(r) == [k |-> "ref", r |-> r]
n3     == [k |-> "num", v |-> R(3)]
o(op, a, b, c, n) == [op |-> op, a |-> a, b |-> b, c |-> c, n |-> n]
Start == << o("var", n3, n3, n3, "x"), o("par", n3, n3, n3, "p") >>
Vals  == [vars |-> [x |-> R(2)], pars |-> [p |-> R(-3)]]

VARIABLE hist
H == Heap(hist, <<>>)
Init == hist = Start
Refs == {ref(r) : r \in 1..Len(hist)}
Ops2 == {"add", "sub", "mul", "div", "<="}
Next == /\ Len(hist) < MaxOps + 2
        /\ \E op \in
             {o(b, x, y, n3, "") : b \in Ops2, x \in Refs, y \in Refs \cup {n3}}
             \cup {o(b, n3, y, n3, "") : b \in Ops2 \ {"<="}, y \in Refs}
             \cup {o(u, x, n3, n3, "") : u \in {"neg", "shift", "asum"}, x \in Refs} :
           hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
\* operations only append
AppendOnly == [][\A r \in 1..Len(hist) : Heap(hist', <<>>)[r] = H[r]]_hist
\* the normal form used for comparisons has the value of the expression
RECURSIVE NFVal(_)
NFVal(e) ==
  CASE e.k = "nf" -> FoldLeft(LAMBDA acc, t : RAdd(acc, RMul(R(t.sg), NFVal(t.e))), RZero, e.as)
    [] e.k = "mul" -> RMul(NFVal(e.a), NFVal(e.b))
    [] e.k = "div" -> RDiv(NFVal(e.a), NFVal(e.b))
    [] OTHER -> EvalV(e, Vals).v
NFSound == LET e == Last(H)  v == EvalV(e, Vals) IN v.k = "ok" => NFVal(NF(e)) = v.v
\* replacing parameters first does not change the value
SubstSound == LET e == Last(H) IN EvalV(e, Vals) = EvalV(Subst(e, Vals), Vals)
Emit == PrintT("CASE " \o ToJson(hist))
================================================================================
