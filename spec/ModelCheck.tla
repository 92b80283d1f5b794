------------------------------- MODULE ModelCheck ------------------------------
(* Which model definitions are accepted.                                          *)
(* m = [vars |-> <<[n, t, s, lb, ub]>>, pars |-> <<[n, t, s]>>,                    *)
(*      cons |-> <<[n, e, lb, ub]>>, ports |-> <<[n, t]>>,                         *)
(*      pfd |-> <<[p, f, e]>>, objop, objinv, types |-> [t |-> fields]]            *)
EXTENDS Ops
Names(s)  == {s[j].n : j \in DOMAIN s}
Nth(s, x) == s[CHOOSE j \in DOMAIN s : s[j].n = x]
EnvM(m) == [st |-> ("" :> [x \in Names(m.vars) \cup Names(m.pars) |->
                             LET y == IF x \in Names(m.vars) THEN Nth(m.vars, x) ELSE Nth(m.pars, x)
                             IN [t |-> y.t, s |-> y.s]])]
ConstB(e) == LET d == Degree(e) IN d.k = "ok" /\ d.v = 0
Unb(e) == e.k = "lit" /\ IsInf(e.v)

BadVar(v) == \E b \in {v.lb, v.ub} : b.k # "none" /\ ~ConstB(b)
BadCons(c) ==
  IF c.e.k = "cmp" THEN ~Unb(c.lb) \/ ~Unb(c.ub)
  ELSE \/ \E b \in {c.lb, c.ub} : ~ConstB(b)
       \/ c.lb = Lit(RInf) \/ c.ub = Lit(RNegInf)
BadPfd(m, d) ==
  \/ d.p \notin Names(m.ports)
  \/ d.f \notin Range1(m.types[Nth(m.ports, d.p).t])
  \/ Has(d.e, {"cmp", "port", "pagg", "cvar", "cpar"})
BadObj(m, o) ==
  /\ o.k # "none"
  /\ \/ LET d == Degree(o) IN d.k = "err" \/ d.v > 1
     \/ Has(o, {"port", "pagg", "cvar", "cpar"})
     \/ Index(o, EnvM(m)) # NoIdx
Twice(s) == Cardinality(Names(s)) # Len(s)
\* a binding and an inner constraint may have the same name
TwiceIn(m) == \/ Twice(m.vars) \/ Twice(m.pars)
              \/ \E b \in BOOLEAN : Twice(SelectSeq(m.cons, LAMBDA c : c.bind = b))
              \/ Cardinality({<<m.pfd[j].p, m.pfd[j].f>> : j \in DOMAIN m.pfd}) # Len(m.pfd)
Reasons(m) ==
  (IF TwiceIn(m) THEN {"name given twice"} ELSE {}) \cup
  (IF \E j \in DOMAIN m.vars : BadVar(m.vars[j]) THEN {"variable bound"} ELSE {})
  \cup (IF \E j \in DOMAIN m.cons : BadCons(m.cons[j]) THEN {"constraint"} ELSE {})
  \cup (IF Cardinality(Names(m.ports)) # Len(m.ports) THEN {"duplicate port"}
        ELSE IF \E j \in DOMAIN m.pfd : BadPfd(m, m.pfd[j]) THEN {"port field definition"} ELSE {})
  \cup (IF BadObj(m, m.objop) \/ BadObj(m, m.objinv) THEN {"objective"} ELSE {})

\* ------------------------------------------ what an accepted model shows
NormalC(c) ==
  IF c.e.k = "cmp"
  THEN [n |-> c.n, e |-> Add(<<c.e.a, Neg(c.e.b)>>),
        lb |-> IF c.e.op = "<=" THEN Lit(RNegInf) ELSE Lit(RZero),
        ub |-> IF c.e.op = ">=" THEN Lit(RInf) ELSE Lit(RZero)]
  ELSE [n |-> c.n, e |-> c.e, lb |-> c.lb, ub |-> c.ub]
================================================================================
