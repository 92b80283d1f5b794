-------------------------------- MODULE ExprGen --------------------------------
(* Exhaustive bounded enumeration of the expression language.  Every state is an  *)
(* expression; TLC checks on each of them that                                    *)
(*   - the implementation's procedure computes the denotational meaning,          *)
(*   - an expression that is not indexed by time (scenario) has the same meaning  *)
(*     at every time step (scenario),                                             *)
(*   - accepted expressions are at most of degree 1.                              *)
(* Emit prints each of them: the harness replays them in the code.                *)
EXTENDS ExprImpl, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
X == EVar("c", "x")        \* time and scenario
Y == EVar("c", "y")        \* neither
Z == EVar("d", "z")        \* time only
P == EPar("c", "p")        \* time and scenario
Q == EPar("c", "q")        \* constant, value 2
U == EPar("d", "u")        \* scenario only
st(t, s) == [t |-> t, s |-> s]
Env == [T |-> 3, S |-> 2,
        st  |-> [c |-> [x |-> st(TRUE, TRUE), y |-> st(FALSE, FALSE),
                        p |-> st(TRUE, TRUE), q |-> st(FALSE, FALSE)],
                 d |-> [z |-> st(TRUE, FALSE), u |-> st(FALSE, TRUE)]],
        val |-> [c |-> [p |-> << <<R(1), R(2)>>, <<R(3), R(5)>>, <<R(7), R(-4)>> >>,
                        q |-> << <<R(2)>> >>],
                 d |-> [u |-> << <<R(3), R(-1)>> >>]]]

L0 == {Lit(R(2)), X, Y, Z, P, Q, U}
LS == {X, P, Lit(R(3))}
Un(S) == UNION {
  {Neg(a) : a \in S},
  {Shift(a, Lit(R(n))) : a \in S, n \in {-1, 2}},
  {Shift(a, Neg(Q)) : a \in S},
  {Eval(a, Lit(R(1))) : a \in S}, {Eval(a, Q) : a \in S},
  {TSum(a, Lit(R(-1)), Lit(R(1))) : a \in S}, {TSum(a, Neg(Q), Lit(R(0))) : a \in S},
  {ASum(a) : a \in S}, {Expec(a) : a \in S}}
Bi(S, V) == UNION {
  {Add(<<a, b>>) : a \in S, b \in V}, {Add(<<a, Neg(b)>>) : a \in S, b \in V},
  {Mul(a, b) : a \in S, b \in V}, {Div(a, b) : a \in S, b \in V}}
L1(z) == L0 \cup Un(L0) \cup Bi(L0, L0)

VARIABLES e, d
Init == e \in L1(0) /\ d = 1
Next == /\ d < Depth
        /\ d' = d + 1
        /\ e' \in IF d = 1 THEN Un({e}) \cup Bi({e}, LS) \cup Bi(LS, {e})
                  ELSE Un({e}) \cup Bi({e}, {X, P})
Spec == Init /\ [][Next]_<<e, d>>
View == e
Emit == PrintT("CASE " \o ToJson(e))

Procedure(ex, t, s) ==
  LET r == Reject(ex, Env, t, 0, s) IN
  r = {} => LTrim(Lin(Expand(ex, Env), Env, t, s)) = LTrim(Sem(ex, Env, t, 0, s))
MeaningIsComputed ==
  \A t \in 0..2, s \in 0..1 : Procedure(e, t, s)
IndexSound ==
  LET x == Index(e, Env)
      ok == \A t \in 0..2, s \in 0..1 : Reject(e, Env, t, 0, s) = {}
  IN ok => /\ ~x.t => \A s \in 0..1 : Cardinality({LTrim(Sem(e, Env, t, 0, s)) : t \in 0..2}) = 1
           /\ ~x.s => \A t \in 0..2 : Cardinality({LTrim(Sem(e, Env, t, 0, s)) : s \in 0..1}) = 1
DegreeSound ==
  Reject(e, Env, 0, 0, 0) = {} => Degree(e).k = "ok" /\ Degree(e).v <= 1
================================================================================
