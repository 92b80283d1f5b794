------------------------------- MODULE ModelTrace ------------------------------
(* One event: a model definition, what the constructors said, and what the        *)
(* accepted model contains.                                                       *)
EXTENDS ModelCheck, TraceKit
Canon(c) == [c EXCEPT !.e = NF(@), !.lb = NF(@), !.ub = NF(@)]
\* binding constraints are listed first
Listed(m) == SelectSeq(m.cons, LAMBDA c : c.bind) \o SelectSeq(m.cons, LAMBDA c : ~c.bind)
Model_(ev) ==
  LET o == ev.obs  m == ev.m  r == Reasons(m) IN
  IF r # {} THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", r, "the model was accepted"))
  ELSE IF o.k = "err" THEN Fail("rejected", "a model", o)
  ELSE Check("variables", [j \in DOMAIN m.vars |-> m.vars[j]], o.v.vars)
       \cup Check("parameters", m.pars, o.v.pars)
       \cup Check("constraints", [j \in DOMAIN m.cons |-> Canon(NormalC(Listed(m)[j]) @@ Listed(m)[j])], [j \in DOMAIN o.v.cons |-> Canon(o.v.cons[j])])
       \cup Check("ports", m.ports, o.v.ports)
       \cup Check("ports", m.pfd, o.v.pfd)
       \cup Check("objective", <<m.objop, m.objinv>>, o.v.objs)
       \cup Check("same", TRUE, o.v.same)
       \cup Check("same", m.dyn, o.v.dyn)
\* elements are equal exactly when they are declared alike
Pair_(ev) ==
  LET o == ev.obs  q == ev.m.pair  e == q.a = q.b IN
  IF o.k = "err" THEN Fail("rejected", "a comparison", o)
  ELSE Check("equality", [eq |-> e, qe |-> e, self |-> TRUE, other |-> FALSE], o.v)
Verdict(ev) == IF "pair" \in DOMAIN ev.m THEN Pair_(ev) ELSE Model_(ev)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
