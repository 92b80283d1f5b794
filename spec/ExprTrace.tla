-------------------------------- MODULE ExprTrace ------------------------------
(* Validates recorded computations of the real expression code against Expr.      *)
EXTENDS Expr, TraceKit

Key(x)    == <<x.c, x.n, x.t, x.s>>
ObsLin(o) == LTrim([c |-> o.c,
                    m |-> [y \in {Key(x) : x \in Range1(o.m)} |->
                             (CHOOSE x \in Range1(o.m) : Key(x) = y).v]])
LinFails(ev, o) ==
  LET m == Meaning(ev.e, ev.env, ev.t, ev.s) IN
  IF o.k = "err" THEN (IF m.k = "err" THEN {} ELSE Fail("meaning", m, o))
  ELSE IF m.k = "err" THEN Fail("rejection", m, o)
  ELSE IF ObsLin(o.v) = m.v THEN {} ELSE Fail("meaning", m, o)
Same(clause, exp, o) ==
  IF exp.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail(clause, exp, o))
  ELSE IF o.k = "ok" /\ o.v = exp.v THEN {} ELSE Fail(clause, exp, o)
Bool(d, p(_)) == IF d.k = "err" THEN d ELSE Ok(p(d.v))

Verdict(ev) ==
  LET d == Degree(ev.e)
      o == ev.obs
      Zero(n) == n = 0
      One(n) == n <= 1
  IN IF "lin" \notin DOMAIN o THEN Fail("crash", "no crash", o)
     ELSE LinFails(ev, o.lin)
          \cup Same("degree", d, o.deg)
          \cup Same("constant", Bool(d, Zero), o.isc)
          \cup Same("linear", Bool(d, One), o.isl)
          \cup Same("index", Ok(Index(ev.e, ev.env)), o.idx)
          \cup (IF o.same THEN {} ELSE Fail("mutation", "unchanged", "changed"))
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
