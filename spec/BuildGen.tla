-------------------------------- MODULE BuildGen -------------------------------
(* Systems assembled step by step from a small catalogue (a balance node, a       *)
(* producer with an investment, a demand with a storage): components, connections *)
(* and their data.  Checked on every system:                                      *)
(*   - investment and operational parts make up the merged problem,               *)
(*   - the risk weight scales the objective and nothing else,                     *)
(*   - the order of the components does not matter,                               *)
(*   - a new component leaves what concerns the others as it was,                 *)
(*   - a new connection only changes the rows of the components it joins.         *)
EXTENDS Build, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
V(n) == [k |-> "var", n |-> n]
Pa(n) == [k |-> "par", n |-> n]
Agg(p, f) == [k |-> "pagg", p |-> p, f |-> f]

NInf == Lit(RNegInf)
PInf == Lit(RInf)
var(t, s, lb, ub, type, ctx) == [t |-> t, s |-> s, lb |-> lb, ub |-> ub, type |-> type, ctx |-> ctx]
con(n, e, lb, ub, ctx) == [name |-> n, e |-> e, lb |-> lb, ub |-> ub, ctx |-> ctx]
cmp(op, a, b) == [k |-> "cmp", op |-> op, a |-> a, b |-> b]
st(t, s) == [t |-> t, s |-> s]
Models ==
  [bal |-> [pars |-> <<>>, ports |-> [p |-> "f"], pfd |-> <<>>, objop |-> None, objinv |-> None,
            vars |-> [u |-> var(TRUE, TRUE, Lit(RZero), None, "continuous", "OPERATIONAL")],
            cons |-> << con("balance", cmp("=", Agg("p", "flow"), V("u")), NInf, PInf, "OPERATIONAL") >>],
   gen |-> [pars |-> [c |-> st(FALSE, TRUE), m |-> st(TRUE, FALSE)], ports |-> [p |-> "f"],
            pfd |-> <<[p |-> "p", f |-> "flow", e |-> V("g")]>>,
            vars |-> [g |-> var(TRUE, TRUE, Lit(RZero), Pa("m"), "continuous", "OPERATIONAL"),
                      i |-> var(FALSE, FALSE, Lit(RZero), Lit(R(9)), "integer", "COUPLING"),
                      b |-> var(FALSE, FALSE, Lit(R(-1)), None, "continuous", "INVESTMENT")],
            cons |-> << con("max", cmp("<=", V("g"), Add(<<V("i"), Shift(V("g"), Lit(R(-1)))>>)), NInf, PInf, "OPERATIONAL"),
                        con("inv", Add(<<V("i"), V("b"), Lit(R(2))>>), Lit(R(1)), Lit(R(8)), "INVESTMENT") >>,
            objop |-> Expec(ASum(Mul(Pa("c"), V("g")))), objinv |-> Add(<<Mul(Lit(R(5)), V("i")), V("b"), Lit(R(3))>>)],
   dem |-> [pars |-> [d |-> st(TRUE, TRUE)], ports |-> [p |-> "f"],
            pfd |-> <<[p |-> "p", f |-> "flow", e |-> Add(<<Neg(Pa("d")), V("l"), Neg(Shift(V("l"), Lit(R(1))))>>)]>>,
            vars |-> [l |-> var(TRUE, FALSE, Lit(RZero), Lit(R(4)), "continuous", "OPERATIONAL")],
            cons |-> << con("start", cmp(">=", Eval(V("l"), Lit(RZero)), Lit(R(1))), NInf, PInf, "OPERATIONAL") >>,
            objop |-> ASum(V("l")), objinv |-> None]]
dt(k, v) == [k |-> k, v |-> v, sc |-> <<>>, n |-> <<>>]
DataFor == [c |-> {dt("const", R(2)), [dt("sser", <<R(3), R(7)>>) EXCEPT !.sc = <<1, 0>>]},
            m |-> {dt("const", R(6)), dt("tser", <<R(1), R(2), R(0), R(5)>>)},
            d |-> {dt("const", R(1)), dt("tsser", <<<<R(1), R(2)>>, <<R(3), R(4)>>, <<R(5), R(6)>>, <<R(7), R(8)>>>>)}]
Ids == [bal |-> <<"N0", "N1">>, gen |-> <<"G0", "G1">>, dem |-> <<"D0", "D1">>]

VARIABLES sys
Nb(m) == Cardinality({j \in DOMAIN sys.comps : sys.comps[j].model = m})
Size == Len(sys.comps) + Len(sys.conns)
AddComp ==
  /\ sys.conns = <<>>
  /\ \E m \in DOMAIN Models :
     /\ Nb(m) < 2 /\ (m = "bal" => \A j \in DOMAIN sys.comps : sys.comps[j].model = "bal")    \* nodes come first
     /\ \E ds \in [DOMAIN Models[m].pars -> UNION {DataFor[p] : p \in DOMAIN Models[m].pars}] :
        /\ \A p \in DOMAIN ds : ds[p] \in DataFor[p]
        /\ sys' = [sys EXCEPT !.comps = Append(@, [id |-> Ids[m][Nb(m) + 1], model |-> m, node |-> m = "bal"]),
                              !.data = [x \in DOMAIN @ \cup {Ids[m][Nb(m) + 1]} |-> IF x \in DOMAIN @ THEN @[x] ELSE ds]]
Connect ==
  \E a, b \in DOMAIN sys.comps :
    /\ sys.comps[a].model = "bal" /\ sys.comps[b].model # "bal"
    /\ \E flip \in BOOLEAN :
       sys' = [sys EXCEPT !.conns = Append(@, IF flip THEN [c1 |-> sys.comps[b].id, p1 |-> "p", c2 |-> sys.comps[a].id, p2 |-> "p"]
                                              ELSE [c1 |-> sys.comps[a].id, p1 |-> "p", c2 |-> sys.comps[b].id, p2 |-> "p"])]
Init == sys = [models |-> Models, comps |-> <<>>, conns |-> <<>>, data |-> <<>>, ptypes |-> [f |-> <<"flow">>]]
Next == Size < MaxOps /\ (AddComp \/ Connect)
Spec == Init /\ [][Next]_sys

req(blk, s, strat, risk) == [block |-> blk, S |-> s, strat |-> strat, risk |-> risk, tree |-> "", full |-> TRUE]
Blk == <<1, 3>>
Pb(y, strat) == Problem(y, req(Blk, 2, strat, ROne))
LinOf(o) == [c |-> o.c, m |-> o.m]
Theorems ==
  LET M == Pb(sys, "merged")  O == Pb(sys, "operational")  I == Pb(sys, "investment")
      m == M.v  o == O.v  v == I.v
      b == Problem(sys, req(Blk, 2, "merged", <<1, 4>>)).v
      rev == [sys EXCEPT !.comps = Reverse(@), !.conns = Reverse(@)]
  IN \* what is written in the catalogue is always accepted
     /\ M.k = "ok" /\ O.k = "ok" /\ I.k = "ok"
     \* the parts make up the whole
     /\ DOMAIN m.vars = DOMAIN o.vars \cup DOMAIN v.vars
     /\ \A x \in DOMAIN o.vars : m.vars[x] = o.vars[x]
     /\ \A x \in DOMAIN v.vars : m.vars[x] = v.vars[x]
     /\ DOMAIN m.rows = DOMAIN o.rows \cup DOMAIN v.rows /\ DOMAIN o.rows \cap DOMAIN v.rows = {}
     /\ \A x \in DOMAIN m.rows : m.rows[x] = IF x \in DOMAIN o.rows THEN o.rows[x] ELSE v.rows[x]
     /\ LTrim(LAdd(LinOf(o.obj), LinOf(v.obj))) = LTrim(LinOf(m.obj))
     \* the weight only scales the objective
     /\ m.vars = b.vars /\ m.rows = b.rows /\ LTrim(LScale(<<1, 4>>, LinOf(m.obj))) = LTrim(LinOf(b.obj))
     \* the order does not matter
     /\ Pb(rev, "merged") = M
\* rows of component c
RowsOf(p, c) == {x \in DOMAIN p.v.rows : \E t \in 0..1, s \in 0..1, n \in {"balance", "max", "inv", "start"} : x = RName(c, n, t, s)}
Local == [][LET p == Pb(sys, "merged")  q == Pb(sys', "merged") IN
            IF Len(sys'.comps) > Len(sys.comps)
            THEN /\ \A x \in DOMAIN p.v.vars : q.v.vars[x] = p.v.vars[x]
                 /\ \A x \in DOMAIN p.v.rows : q.v.rows[x] = p.v.rows[x]
                 /\ \A x \in DOMAIN p.v.obj.m : q.v.obj.m[x] = p.v.obj.m[x]
            ELSE /\ q.v.vars = p.v.vars /\ q.v.obj = p.v.obj /\ DOMAIN q.v.rows = DOMAIN p.v.rows
                 /\ LET k == Last(sys'.conns) IN
                    \A x \in DOMAIN p.v.rows \ (RowsOf(p, k.c1) \cup RowsOf(p, k.c2)) : q.v.rows[x] = p.v.rows[x]]_sys
Emit == sys.comps = <<>> \/ PrintT("CASE " \o ToJson(sys))
================================================================================
