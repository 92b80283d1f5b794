----------------------------------- MODULE Ops ---------------------------------
(* Building expressions with the Python operators.  The state is a heap of        *)
(* expressions; every operation appends one and never changes the others.         *)
EXTENDS Parser

Ref(h, x) == IF x.k = "num" THEN Lit(x.v) ELSE h[x.r]
Apply(h, op) ==
  LET a == Ref(h, op.a)  b == Ref(h, op.b)  c == Ref(h, op.c) IN
  CASE op.op = "var"   -> [k |-> "var", n |-> op.n]
    [] op.op = "par"   -> [k |-> "par", n |-> op.n]
    [] op.op = "lit"   -> a
    [] op.op \in {"cvar", "cpar"} -> [k |-> op.op, c |-> op.w.c, n |-> op.n]
    [] op.op \in {"pvar", "ppar"} -> [k |-> op.op, c |-> op.w.c, n |-> op.n, ti |-> op.w.ti, si |-> op.w.si]
    [] op.op = "pagg"  -> [k |-> "pagg", p |-> "port", f |-> op.n]
    [] op.op = "port"  -> [k |-> "port", p |-> "port", f |-> op.n]
    [] op.op = "neg"   -> Neg(a)
    [] op.op = "add"   -> Add(<<a, b>>)
    [] op.op = "sub"   -> Add(<<a, Neg(b)>>)
    [] op.op = "mul"   -> Mul(a, b)
    [] op.op = "div"   -> Div(a, b)
    [] op.op \in {"<=", ">=", "="} -> Cmp(a, b, op.op)
    [] op.op = "sum3"  -> Add(<<a, b, c>>)
    [] op.op = "shift" -> Shift(a, b)
    [] op.op = "eval"  -> Eval(a, b)
    [] op.op = "tsum"  -> TSum(a, b, c)
    [] op.op = "asum"  -> ASum(a)
    [] op.op = "expec" -> Expec(a)
    [] op.op = "vari"  -> [k |-> "scen", a |-> a, op |-> "Variance"]
RECURSIVE Heap(_, _)
Heap(hist, h) == IF hist = <<>> THEN h ELSE Heap(Tail(hist), Append(h, Apply(h, hist[1])))

\* ------------------------------------------------ evaluation with given values
\* Ok(rational) or an error when something has no value
RECURSIVE EvalV(_, _)
EvalV(e, vals) ==
  CASE e.k = "lit" -> Ok(e.v)
    [] e.k = "var" -> IF e.n \in DOMAIN vals.vars THEN Ok(vals.vars[e.n]) ELSE Err("unknown")
    [] e.k = "par" -> IF e.n \in DOMAIN vals.pars THEN Ok(vals.pars[e.n]) ELSE Err("unknown")
    [] e.k = "neg" -> LET a == EvalV(e.a, vals) IN IF a.k = "ok" THEN Ok(RNeg(a.v)) ELSE a
    [] e.k = "add" -> LET vs == [j \in DOMAIN e.as |-> EvalV(e.as[j], vals)] IN
                      IF \E j \in DOMAIN vs : vs[j].k = "err" THEN Err("operand")
                      ELSE Ok(RSumSeq([j \in DOMAIN vs |-> vs[j].v]))
    [] e.k \in {"mul", "div"} ->
         LET a == EvalV(e.a, vals)  b == EvalV(e.b, vals) IN
         IF a.k = "err" \/ b.k = "err" THEN Err("operand")
         ELSE IF e.k = "mul" THEN Ok(RMul(a.v, b.v))
         ELSE IF b.v = RZero THEN Err("zero") ELSE Ok(RDiv(a.v, b.v))
    [] OTHER -> Err("no value")

\* ------------------------------------------------ evaluation with given values
\* comp: do the variables and parameters of components have values too?  In the
\* component "c2" they are the opposites of the given ones.
InC(c, v) == IF c = "c2" THEN RNeg(v) ELSE v
RECURSIVE EvalC(_, _)
EvalC(e, vals) ==
  CASE e.k = "cvar" -> IF e.n \in DOMAIN vals.vars THEN Ok(InC(e.c, vals.vars[e.n])) ELSE Err("unknown")
    [] e.k = "cpar" -> IF e.n \in DOMAIN vals.pars THEN Ok(InC(e.c, vals.pars[e.n])) ELSE Err("unknown")
    [] e.k = "neg" -> LET a == EvalC(e.a, vals) IN IF a.k = "ok" THEN Ok(RNeg(a.v)) ELSE a
    [] e.k = "add" -> LET vs == [j \in DOMAIN e.as |-> EvalC(e.as[j], vals)] IN
                      IF \E j \in DOMAIN vs : vs[j].k = "err" THEN Err("operand")
                      ELSE Ok(RSumSeq([j \in DOMAIN vs |-> vs[j].v]))
    [] e.k \in {"mul", "div"} ->
         LET a == EvalC(e.a, vals)  b == EvalC(e.b, vals) IN
         IF a.k = "err" \/ b.k = "err" THEN Err("operand")
         ELSE IF e.k = "mul" THEN Ok(RMul(a.v, b.v))
         ELSE IF b.v = RZero THEN Err("zero") ELSE Ok(RDiv(a.v, b.v))
    [] OTHER -> EvalV(e, vals)

\* ---------------------------------------------- parameters replaced by their value
RECURSIVE Subst(_, _)
Subst(e, vals) ==
  CASE e.k = "par" -> Lit(vals.pars[e.n])
    [] e.k = "cpar" -> Lit(InC(e.c, vals.pars[e.n]))
    [] e.k \in Leaves -> e
    [] e.k = "add" -> Add([j \in DOMAIN e.as |-> Subst(e.as[j], vals)])
    [] e.k \in Binary -> [e EXCEPT !.a = Subst(@, vals), !.b = Subst(@, vals)]
    [] e.k \in {"shift", "eval"} -> [e EXCEPT !.a = Subst(@, vals), !.s = Subst(@, vals)]
    [] e.k = "tsum" -> [e EXCEPT !.a = Subst(@, vals), !.f = Subst(@, vals), !.t = Subst(@, vals)]
    [] OTHER -> [e EXCEPT !.a = Subst(@, vals)]
\* parameters without a value
RECURSIVE Lacks(_, _)
Lacks(e, vals) == IF e.k \in {"par", "cpar"} THEN e.n \notin DOMAIN vals.pars
                  ELSE e.k \notin Leaves /\ \E y \in Range1(Sub(e)) \cup Range1(Bounds(e)) : Lacks(y, vals)
\* ------------------------------------------------------- association to a component
RECURSIVE InComp(_, _)
InComp(e, c) ==
  CASE e.k = "var" -> EVar(c, e.n)
    [] e.k = "par" -> EPar(c, e.n)
    [] e.k \in Leaves -> e
    [] e.k = "add" -> Add([j \in DOMAIN e.as |-> InComp(e.as[j], c)])
    [] e.k \in Binary -> [e EXCEPT !.a = InComp(@, c), !.b = InComp(@, c)]
    [] e.k \in {"shift", "eval"} -> [e EXCEPT !.a = InComp(@, c), !.s = InComp(@, c)]
    [] e.k = "tsum" -> [e EXCEPT !.a = InComp(@, c), !.f = InComp(@, c), !.t = InComp(@, c)]
    [] OTHER -> [e EXCEPT !.a = InComp(@, c)]
\* an expression is attached to a component once
Attached == {"cvar", "cpar", "pvar", "ppar"}
\* ------------------------------------- equality up to a tolerance on the literals
RECURSIVE EqTol(_, _, _, _)
EqTol(e, f, rel, abs) ==
  IF e.k # f.k THEN FALSE
  ELSE IF e.k = "lit" THEN Near(e.v, f.v, rel, abs)
  ELSE IF e.k \in Leaves THEN e = f
  ELSE LET x == Sub(e) \o Bounds(e)  y == Sub(f) \o Bounds(f) IN
       /\ Len(x) = Len(y)
       /\ (e.k \in {"cmp", "scen"} => e.op = f.op)
       /\ \A j \in DOMAIN x : EqTol(x[j], y[j], rel, abs)
================================================================================
