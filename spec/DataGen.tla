--------------------------------- MODULE DataGen -------------------------------
(* All histories of at most MAXOPS additions (of data, of scenarization years) on *)
(* two parameters and one scenarization; the harness reads everything at the end. *)
EXTENDS Data, Rat, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
dt(k, v, z) == [k |-> k, v |-> v, z |-> z, n |-> <<>>]
Kinds == {dt("const", R(5), ""), dt("tser", <<R(1), R(2)>>, ""), dt("sser", <<R(3), R(4)>>, ""), dt("sser", <<R(3), R(4)>>, "z"),
          dt("tsser", <<<<R(6), R(7)>>, <<R(8), R(9)>>>>, "z")}
Tree == [dt("tree", <<>>, "") EXCEPT !.n = [a |-> dt("const", R(1), ""), b |-> dt("sser", <<R(2), R(0)>>, "z")]]
Blank == [op |-> "", c |-> "", p |-> "", z |-> "z", y |-> 0, s |-> 0, d |-> dt("const", RZero, "")]
VARIABLES hist, st
New == [Blank EXCEPT !.op = "new"]
Ops == {[Blank EXCEPT !.op = "year", !.y = y, !.s = s] : y \in 0..1, s \in 0..1}
       \cup {[Blank EXCEPT !.op = "add", !.c = "A", !.p = p, !.d = d] : p \in {"p", "q"}, d \in Kinds \cup {Tree}}
Init == hist = <<New>> /\ st = Step(Start, New).st
Next == /\ Len(hist) <= MaxOps
        /\ \E op \in Ops : hist' = Append(hist, op) /\ st' = Step(st, op).st
Spec == Init /\ [][Next]_<<hist, st>>
Ts == -1..2
Ss == -1..2
Read(x, y, t, s, n) == Access(x.db[y], x.sc, t, s, n)
\* data that fit a parameter without a dimension read the same along it
FitSound ==
  \A y \in DOMAIN st.db : \A n \in {"", "a", "b"} :
    /\ Fits(st.db[y], FALSE, TRUE) => \A s \in Ss : Cardinality({Read(st, y, t, s, n) : t \in Ts}) = 1
    /\ Fits(st.db[y], TRUE, FALSE) => \A t \in Ts : Cardinality({Read(st, y, t, s, n) : s \in Ss}) = 1
    /\ Fits(st.db[y], FALSE, FALSE) => Fits(st.db[y], TRUE, FALSE) /\ Fits(st.db[y], FALSE, TRUE)
    /\ Fits(st.db[y], TRUE, FALSE) \/ Fits(st.db[y], FALSE, TRUE) => Fits(st.db[y], TRUE, TRUE)
\* a year never changes what could be read; an addition only changes its own parameter
Frame == [][\A y \in DOMAIN st.db, t \in Ts, s \in Ss, n \in {"", "a", "b"} :
              LET op == Last(hist') IN
              (op.op = "year" /\ Read(st, y, t, s, n).k = "ok") \/ (op.op = "add" /\ y # <<op.c, op.p>>)
              => Read(st', y, t, s, n) = Read(st, y, t, s, n)]_<<hist, st>>
\* the last addition is the one read
LastWins == [][LET op == Last(hist') IN op.op = "add" => st'.db[<<op.c, op.p>>] = op.d]_<<hist, st>>
Emit == Len(hist) <= MaxOps \/ PrintT("CASE " \o ToJson(hist))
================================================================================
