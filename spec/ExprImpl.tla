-------------------------------- MODULE ExprImpl -------------------------------
(* The procedure the implementation uses to give a meaning to an expression:     *)
(* operator expansion into nodes indexed by (time index, scenario index), then   *)
(* linearisation at a (time, scenario).  One operator per step of the code.      *)
EXTENDS Expr

TI(k, v) == [k |-> k, v |-> v]       \* "shift" | "step" | "none"
SI(k, v) == [k |-> k, v |-> v]       \* "cur" | "one" | "none"

RECURSIVE MapLeaves(_, _, _)
\* op: [k |-> "shift", v], [k |-> "step", v], [k |-> "scen", v]
Reindex(x, op) ==
  CASE op.k = "shift" ->
         IF x.ti.k = "none" THEN x ELSE [x EXCEPT !.ti.v = @ + op.v]
    [] op.k = "step" ->
         IF x.ti.k = "shift" THEN [x EXCEPT !.ti = TI("step", @.v + op.v)] ELSE x
    [] op.k = "scen" ->
         IF x.si.k = "cur" THEN [x EXCEPT !.si = SI("one", op.v)] ELSE x
MapLeaves(e, op, z) ==
  CASE e.k \in {"pvar", "ppar"} -> Reindex(e, op)
    [] e.k = "lit" -> e
    [] e.k = "neg" -> [e EXCEPT !.a = MapLeaves(@, op, z)]
    [] e.k = "add" -> [e EXCEPT !.as = [i \in DOMAIN @ |-> MapLeaves(@[i], op, z)]]
    [] e.k \in {"mul", "div"} -> [e EXCEPT !.a = MapLeaves(@, op, z), !.b = MapLeaves(@, op, z)]

SumE(s) == IF s = <<>> THEN Lit(RZero) ELSE IF Len(s) = 1 THEN s[1] ELSE Add(s)

RECURSIVE Expand(_, _)
Expand(e, env) ==
  CASE e.k = "lit" -> e
    [] e.k \in {"cvar", "cpar"} ->
         LET x == StOf(env, e.c, e.n) IN
         [k |-> IF e.k = "cvar" THEN "pvar" ELSE "ppar", c |-> e.c, n |-> e.n,
          ti |-> IF x.t THEN TI("shift", 0) ELSE TI("none", 0),
          si |-> IF x.s THEN SI("cur", 0) ELSE SI("none", 0)]
    [] e.k = "neg" -> Neg(Expand(e.a, env))
    [] e.k = "add" -> Add([i \in DOMAIN e.as |-> Expand(e.as[i], env)])
    [] e.k = "mul" -> Mul(Expand(e.a, env), Expand(e.b, env))
    [] e.k = "div" -> Div(Expand(e.a, env), Expand(e.b, env))
    [] e.k = "shift" -> MapLeaves(Expand(e.a, env), [k |-> "shift", v |-> BoundVal(e.s, env)], 0)
    [] e.k = "eval"  -> MapLeaves(Expand(e.a, env), [k |-> "step", v |-> BoundVal(e.s, env)], 0)
    [] e.k = "tsum"  -> LET f == BoundVal(e.f, env)  t == BoundVal(e.t, env)
                            x == Expand(e.a, env) IN
                        SumE([i \in 1..(IF t < f THEN 0 ELSE t - f + 1) |->
                                MapLeaves(x, [k |-> "shift", v |-> f + i - 1], 0)])
    [] e.k = "asum"  -> LET x == Expand(e.a, env) IN
                        SumE([i \in 1..env.T |-> MapLeaves(x, [k |-> "step", v |-> i - 1], 0)])
    [] e.k = "scen"  -> LET x == Expand(e.a, env) IN
                        Div(SumE([i \in 1..env.S |-> MapLeaves(x, [k |-> "scen", v |-> i - 1], 0)]),
                            Lit(R(env.S)))

TimeOf(x, t) == IF x.ti.k = "shift" THEN t + x.ti.v ELSE x.ti.v
ScenOf(x, s) == IF x.si.k = "cur" THEN s ELSE x.si.v
RECURSIVE Lin(_, _, _, _)
Lin(e, env, t, s) ==
  CASE e.k = "lit"  -> LConst(e.v)
    [] e.k = "pvar" -> LVar(VKey(env, e.c, e.n, TimeOf(e, t), ScenOf(e, s)))
    [] e.k = "ppar" -> LConst(Val(env, e.c, e.n, TimeOf(e, t), ScenOf(e, s)))
    [] e.k = "neg"  -> LScale(R(-1), Lin(e.a, env, t, s))
    [] e.k = "add"  -> LSum([i \in DOMAIN e.as |-> Lin(e.as[i], env, t, s)])
    [] e.k = "mul"  -> LET l == Lin(e.a, env, t, s)  r == Lin(e.b, env, t, s) IN
                       IF DOMAIN l.m = {} THEN LScale(l.c, r) ELSE LScale(r.c, l)
    [] e.k = "div"  -> LScale(RInv(Lin(e.b, env, t, s).c), Lin(e.a, env, t, s))
================================================================================
