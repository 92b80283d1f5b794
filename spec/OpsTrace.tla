--------------------------------- MODULE OpsTrace ------------------------------
EXTENDS Ops, TraceKit
RECURSIVE WellTagged(_)
WellTagged(e) == e.k \in Leaves \cup Unary \cup Binary \cup {"add"}
                 /\ \A y \in Range1(Sub(e)) \cup Range1(Bounds(e)) : WellTagged(y)
SameE(c, e, o) == IF o.k = "ok" /\ WellTagged(o.v) /\ NF(o.v) = NF(e) THEN {} ELSE Fail(c, Ok(e), o)
Has2(e, tags) == HasAnywhere(e, tags)
Arith(e) == ~HasAnywhere(e, {"cmp", "shift", "eval", "tsum", "asum", "scen", "port", "pagg"} \cup Attached)
Entry(e, o, vals) ==
  SameE("build", e, o.e)
  \cup SameE("copy", e, o.copy)
  \cup (IF Lacks(e, vals) THEN Check("resolve", "err", o.res.k) ELSE SameE("resolve", Subst(e, vals), o.res))
  \cup (IF Has2(e, Attached)
        THEN (IF o.ctx.k = "err" /\ o.ev2.k = "err" THEN {} ELSE Fail("context", "refused", <<o.ctx, o.ev2>>))
        ELSE SameE("context", InComp(e, "comp"), o.ctx))
  \cup (LET v == EvalV(e, vals) IN
        IF v.k # o.ev.k \/ (v.k = "ok" /\ v.v # o.ev.v) THEN Fail("evaluate", v, o.ev) ELSE {})
  \cup (LET v == EvalC(e, vals) IN
        IF v.k # o.ev3.k \/ (v.k = "ok" /\ v.v # o.ev3.v) THEN Fail("evaluate", v, o.ev3) ELSE {})
  \cup (LET d == Degree(e) IN
        IF d.k # o.deg.k \/ (d.k = "ok" /\ d.v # o.deg.v) THEN Fail("degree", d, o.deg) ELSE {})
  \cup (LET v == EvalV(e, vals) IN
        IF Has2(e, Attached) THEN {} ELSE
        IF v.k # o.ev2.k \/ (v.k = "ok" /\ v.v # o.ev2.v) THEN Fail("evaluate", v, o.ev2) ELSE {})
  \cup (IF Arith(e) THEN SameE("print", e, o.print) ELSE {})
Verdict(ev) ==
  LET h == Heap(ev.hist, <<>>)
      o == ev.obs
  IN IF o.k = "err" THEN Fail("build", "heap", o)
     ELSE UNION {Entry(h[j], o.heap[j], ev.vals) : j \in DOMAIN h}
     \* equality is structural and sees every difference
     \cup UNION {UNION {
            LET same == o.heap[j].e = o.heap[l].e IN
            IF o.eq[j][l] = same THEN {} ELSE Fail("equality", same, <<o.heap[j].e, o.heap[l].e, o.eq[j][l]>>)
            : l \in DOMAIN h} : j \in DOMAIN h}
     \* no tolerance is negative
     \cup (IF RLt(ev.rel, RZero) \/ RLt(ev.abs, RZero) THEN Check("equality", "err", o.eqtol.k)
           ELSE IF o.eqtol.k = "err" THEN Fail("equality", "with tolerances", o.eqtol)
           ELSE UNION {UNION {
            LET near == EqTol(o.heap[j].e.v, o.heap[l].e.v, ev.rel, ev.abs) IN
            IF o.eqtol.v[j][l] = near THEN {} ELSE Fail("equality", near, <<o.heap[j].e, o.heap[l].e, o.eqtol.v[j][l]>>)
            : l \in DOMAIN h} : j \in DOMAIN h})
     \* what is neither a number nor an expression is refused; only the fields of ports are summed over connections
     \cup UNION {Check("build", [q \in 1..10 |-> q = 10 /\ h[j].k = "port"], o.misuse[j]) : j \in DOMAIN h}
     \* different expressions have different printed forms
     \cup UNION {UNION {
            IF o.texts[j] # o.texts[l] \/ HasAnywhere(h[j], {"pvar", "ppar", "cmp"}) \/ HasAnywhere(h[l], {"pvar", "ppar", "cmp"}) \/ NF(h[j]) = NF(h[l]) THEN {}
            ELSE Fail("print", <<h[j], h[l]>>, o.texts[j])
            : l \in DOMAIN h} : j \in DOMAIN h}
     \cup (IF \E j \in DOMAIN h : o.texts[j] = "" THEN Fail("print", "texts", o.texts) ELSE {})
     \cup (IF \E j \in DOMAIN h : ~o.eqcopy[j] THEN Fail("equality", "copy equal", o.eqcopy) ELSE {})
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
