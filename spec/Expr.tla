---------------------------------- MODULE Expr ---------------------------------
(* The expression language.                                                      *)
(*                                                                               *)
(* An expression is a record with a tag k:                                       *)
(*   lit(v) var(n) par(n) cvar(c,n) cpar(c,n) port(p,f) pagg(p,f)                *)
(*   neg(a) add(as) mul(a,b) div(a,b) cmp(a,b,op)                                *)
(*   shift(a,s) eval(a,s) tsum(a,f,t) asum(a) scen(a,op)                         *)
(*                                                                               *)
(* Sem is the denotational meaning the users rely on: an expression at a (time,  *)
(* scenario) pair denotes an affine form over the problem's variables, time      *)
(* being cyclic over the block.  Expand / Lin describe the two-step procedure of *)
(* the implementation (operator expansion, then linearisation); ExprCheck.tla    *)
(* model-checks that both agree.                                                 *)
EXTENDS Rat, TLC, SequencesExt, FiniteSetsExt

\* ---------------------------------------------------------------- constructors
Lit(v)        == [k |-> "lit", v |-> v]
EVar(c, n)    == [k |-> "cvar", c |-> c, n |-> n]
EPar(c, n)    == [k |-> "cpar", c |-> c, n |-> n]
Neg(a)        == [k |-> "neg", a |-> a]
Add(s)        == [k |-> "add", as |-> s]
Mul(a, b)     == [k |-> "mul", a |-> a, b |-> b]
Div(a, b)     == [k |-> "div", a |-> a, b |-> b]
Cmp(a, b, op) == [k |-> "cmp", a |-> a, b |-> b, op |-> op]
Shift(a, s)   == [k |-> "shift", a |-> a, s |-> s]
Eval(a, s)    == [k |-> "eval", a |-> a, s |-> s]
TSum(a, f, t) == [k |-> "tsum", a |-> a, f |-> f, t |-> t]
ASum(a)       == [k |-> "asum", a |-> a]
Expec(a)      == [k |-> "scen", a |-> a, op |-> "Expectation"]
None          == [k |-> "none"]

\* pvar, ppar: one variable or parameter of the problem, at a definite place (c, n, ti, si)
Leaves   == {"lit", "var", "par", "cvar", "cpar", "port", "pagg", "none", "pvar", "ppar"}
Unary    == {"neg", "shift", "eval", "tsum", "asum", "scen"}
Binary   == {"mul", "div", "cmp"}

Sub(e) == CASE e.k \in Leaves -> <<>>
            [] e.k \in Unary  -> <<e.a>>
            [] e.k \in Binary -> <<e.a, e.b>>
            [] e.k = "add"    -> e.as
\* sub-expressions which only give time bounds
Bounds(e) == CASE e.k \in {"shift", "eval"} -> <<e.s>>
               [] e.k = "tsum" -> <<e.f, e.t>>
               [] OTHER -> <<>>

Range1(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Has(_, _)
Has(e, tags) == e.k \in tags \/ \E x \in Range1(Sub(e)) : Has(x, tags)
RECURSIVE HasAnywhere(_, _)
HasAnywhere(e, tags) ==
  e.k \in tags \/ \E x \in Range1(Sub(e)) \cup Range1(Bounds(e)) : HasAnywhere(x, tags)

\* ------------------------------------------------------- outcome of an operation
Ok(v)  == [k |-> "ok", v |-> v]
Err(w) == [k |-> "err", v |-> w]

\* ------------------------------------------------------------------------ degree
\* [k|->"ok", v|->n]  or an error (division by something which is not constant)
RECURSIVE Degree(_)
Degree(e) ==
  CASE e.k \in {"lit", "par", "cpar", "ppar"}           -> Ok(0)
    [] e.k \in {"var", "cvar", "pvar", "port", "pagg"}  -> Ok(1)
    [] e.k \in {"neg", "shift", "eval", "tsum", "asum"} -> Degree(e.a)
    [] e.k = "scen" -> LET d == Degree(e.a) IN
                       IF d.k = "err" THEN d
                       ELSE Ok((IF e.op = "Variance" THEN 2 ELSE 1) * d.v)
    [] e.k = "add" -> IF \E i \in DOMAIN e.as : Degree(e.as[i]).k = "err" THEN Err("degree")
                      ELSE Ok(Max({Degree(e.as[i]).v : i \in DOMAIN e.as}))
    [] e.k \in {"mul", "cmp"} ->
         LET l == Degree(e.a)  r == Degree(e.b) IN
         IF l.k = "err" \/ r.k = "err" THEN Err("degree")
         ELSE Ok(IF e.k = "mul" THEN l.v + r.v ELSE Max({l.v, r.v}))
    [] e.k = "div" ->
         LET l == Degree(e.a)  r == Degree(e.b) IN
         IF l.k = "err" \/ r.k = "err" THEN Err("degree")
         ELSE IF r.v # 0 THEN Err("degree") ELSE Ok(l.v)

\* ------------------------------------------------------------------- indexation
\* env.st[component][name] gives [t |-> BOOLEAN, s |-> BOOLEAN]; component "" when
\* the expression has no component context
NoIdx == [t |-> FALSE, s |-> FALSE]
OrIdx(S) == [t |-> \E x \in S : x.t, s |-> \E x \in S : x.s]
RECURSIVE Index(_, _)
Index(e, env) ==
  CASE e.k = "lit"  -> NoIdx
    [] e.k \in {"var", "par"}   -> env.st[""][e.n]
    [] e.k \in {"cvar", "cpar"} -> env.st[e.c][e.n]
    [] e.k \in {"neg", "shift", "tsum"} -> Index(e.a, env)
    [] e.k \in {"eval", "asum"} -> [Index(e.a, env) EXCEPT !.t = FALSE]
    [] e.k = "scen" -> [Index(e.a, env) EXCEPT !.s = FALSE]
    [] e.k = "add"  -> OrIdx({Index(x, env) : x \in Range1(e.as)})
    [] e.k \in Binary -> OrIdx({Index(e.a, env), Index(e.b, env)})

\* ------------------------------------------------------------------ affine forms
\* [c |-> rational, m |-> function from variable keys <<comp, name, t, s>> to     *)
\* rationals]; t = -1 / s = -1 for a variable without time / scenario dimension.
LConst(r)  == [c |-> r, m |-> <<>>]
LVar(key)  == [c |-> RZero, m |-> (key :> ROne)]
Coef(l, x) == IF x \in DOMAIN l.m THEN l.m[x] ELSE RZero
LAdd(a, b) ==
  [c |-> RAdd(a.c, b.c),
   m |-> [x \in (DOMAIN a.m) \cup (DOMAIN b.m) |-> RAdd(Coef(a, x), Coef(b, x))]]
LScale(r, a) == [c |-> RMul(r, a.c), m |-> [x \in DOMAIN a.m |-> RMul(r, a.m[x])]]
RECURSIVE LSum(_)
LSum(s) == IF s = <<>> THEN LConst(RZero)
           ELSE IF Len(s) = 1 THEN s[1] ELSE LAdd(s[1], LSum(Tail(s)))
\* coefficients equal to zero do not count
LTrim(l) == [c |-> l.c,
             m |-> [x \in {y \in DOMAIN l.m : l.m[y] # RZero} |-> l.m[x]]]
LEq(a, b) == LTrim(a) = LTrim(b)

\* ------------------------------------------------------------------- environment
\* env = [T, S : Nat,
\*        st  : [component -> [name -> [t, s]]]   (variables and parameters)
\*        val : [component -> [parameter -> rows]]]
\* rows is a T x S matrix of rationals (1-based; the value used when time or
\* scenario is not a dimension of the parameter is the first one).
StOf(env, c, n) == env.st[c][n]
Val(env, c, n, t, s) ==
  LET x == StOf(env, c, n)
      i == IF x.t THEN (t % env.T) + 1 ELSE 1
      j == IF x.s THEN s + 1 ELSE 1
  IN env.val[c][n][i][j]
VKey(env, c, n, t, s) ==
  LET x == StOf(env, c, n)
  IN <<c, n, IF x.t THEN t % env.T ELSE -1, IF x.s THEN s ELSE -1>>

\* Value of an arithmetic expression over constant parameters (time bounds)
RECURSIVE ConstVal(_, _)
ConstVal(e, env) ==
  CASE e.k = "lit"  -> e.v
    [] e.k = "cpar" -> Val(env, e.c, e.n, 0, 0)
    [] e.k = "neg"  -> RNeg(ConstVal(e.a, env))
    [] e.k = "add"  -> RSumSeq([i \in DOMAIN e.as |-> ConstVal(e.as[i], env)])
    [] e.k = "mul"  -> RMul(ConstVal(e.a, env), ConstVal(e.b, env))
    [] e.k = "div"  -> RDiv(ConstVal(e.a, env), ConstVal(e.b, env))

\* A time bound must be an integer built from literals and constant parameters
RECURSIVE ConstOk(_, _)
ConstOk(e, env) ==
  CASE e.k = "lit"  -> TRUE
    [] e.k = "cpar" -> LET x == StOf(env, e.c, e.n) IN ~x.t /\ ~x.s
    [] e.k = "neg"  -> ConstOk(e.a, env)
    [] e.k = "add"  -> \A x \in Range1(e.as) : ConstOk(x, env)
    [] e.k = "mul"  -> ConstOk(e.a, env) /\ ConstOk(e.b, env)
    [] e.k = "div"  -> ConstOk(e.a, env) /\ ConstOk(e.b, env)
                       /\ ConstVal(e.b, env) # RZero
    [] OTHER -> FALSE
BoundOk(e, env) == ConstOk(e, env) /\ IsIntR(ConstVal(e, env))
BoundVal(e, env) == ConstVal(e, env)[1]

\* Does e refer to a definite time step through an operator (x[0], sum(x))?
RECURSIVE Evaluated(_, _), TimeLeaf(_, _)
Evaluated(e, env) ==
  \/ e.k \in {"eval", "asum"} /\ TimeLeaf(e.a, env)
  \/ \E x \in Range1(Sub(e)) : Evaluated(x, env)
TimeLeaf(e, env) ==
  \/ e.k \in {"cvar", "cpar"} /\ StOf(env, e.c, e.n).t
  \/ \E x \in Range1(Sub(e)) : TimeLeaf(x, env)

\* --------------------------------------------------------------------- semantics
\* Expressions which have a meaning: every time bound is a constant integer, no
\* (x[0])[1], products have a constant factor, divisors are constant and not zero.
IsConstE(e) == ~Has(e, {"var", "cvar", "port", "pagg"})

RECURSIVE Sem(_, _, _, _, _)
\* base: the time step the expression is taken at; off: accumulated translation
Sem(e, env, base, off, s) ==
  CASE e.k = "lit"  -> LConst(e.v)
    [] e.k = "cvar" -> LVar(VKey(env, e.c, e.n, base + off, s))
    [] e.k = "cpar" -> LConst(Val(env, e.c, e.n, base + off, s))
    [] e.k = "neg"  -> LScale(R(-1), Sem(e.a, env, base, off, s))
    [] e.k = "add"  -> LSum([i \in DOMAIN e.as |-> Sem(e.as[i], env, base, off, s)])
    [] e.k = "mul"  -> IF IsConstE(e.a)
                       THEN LScale(Sem(e.a, env, base, off, s).c, Sem(e.b, env, base, off, s))
                       ELSE LScale(Sem(e.b, env, base, off, s).c, Sem(e.a, env, base, off, s))
    [] e.k = "div"  -> LScale(RInv(Sem(e.b, env, base, off, s).c), Sem(e.a, env, base, off, s))
    [] e.k = "shift" -> Sem(e.a, env, base, off + BoundVal(e.s, env), s)
    [] e.k = "eval"  -> Sem(e.a, env, BoundVal(e.s, env), off, s)
    [] e.k = "tsum"  -> LET f == BoundVal(e.f, env)  t == BoundVal(e.t, env) IN
                        LSum([i \in 1..(IF t < f THEN 0 ELSE t - f + 1) |->
                                 Sem(e.a, env, base, off + f + i - 1, s)])
    [] e.k = "asum"  -> LSum([i \in 1..env.T |-> Sem(e.a, env, i - 1, off, s)])
    [] e.k = "scen"  -> LScale(<<1, env.S>>,
                          LSum([j \in 1..env.S |-> Sem(e.a, env, base, off, j - 1)]))

\* WellFormed decides acceptance; it follows Sem's context because the value of a
\* divisor depends on it.  Returns the set of reasons to reject.
RECURSIVE Reject(_, _, _, _, _)
Reject(e, env, base, off, s) ==
  CASE e.k \in {"lit", "cvar", "cpar"} -> {}
    [] e.k \in {"var", "par", "port", "pagg"} -> {"no component context"}
    [] e.k = "cmp" -> {"comparison"}
    [] e.k = "neg" -> Reject(e.a, env, base, off, s)
    [] e.k = "add" -> UNION {Reject(e.as[i], env, base, off, s) : i \in DOMAIN e.as}
    [] e.k = "mul" -> Reject(e.a, env, base, off, s) \cup Reject(e.b, env, base, off, s)
                      \cup (IF IsConstE(e.a) \/ IsConstE(e.b) THEN {} ELSE {"product of variables"})
    [] e.k = "div" ->
         LET r == Reject(e.a, env, base, off, s) \cup Reject(e.b, env, base, off, s) IN
         IF r # {} THEN r
         ELSE IF ~IsConstE(e.b) THEN {"division by a variable"}
         ELSE IF Sem(e.b, env, base, off, s).c = RZero THEN {"division by zero"} ELSE {}
    [] e.k = "shift" -> IF ~BoundOk(e.s, env) THEN {"time bound"}
                        ELSE Reject(e.a, env, base, off + BoundVal(e.s, env), s)
    [] e.k = "eval"  -> IF ~BoundOk(e.s, env) THEN {"time bound"}
                        ELSE IF Evaluated(e.a, env) THEN {"already evaluated"}
                        ELSE Reject(e.a, env, BoundVal(e.s, env), off, s)
    [] e.k = "tsum"  -> IF ~BoundOk(e.f, env) \/ ~BoundOk(e.t, env) THEN {"time bound"}
                        ELSE UNION {Reject(e.a, env, base, off + i, s) :
                                     i \in BoundVal(e.f, env)..BoundVal(e.t, env)}
    [] e.k = "asum"  -> UNION {Reject(e.a, env, i, off, s) : i \in 0..(env.T - 1)}
    [] e.k = "scen"  -> IF e.op # "Expectation" THEN {"operator"}
                        ELSE UNION {Reject(e.a, env, base, off, j) : j \in 0..(env.S - 1)}

Meaning(e, env, t, s) ==
  LET r == Reject(e, env, t, 0, s) IN
  IF r # {} THEN Err(CHOOSE x \in r : TRUE) ELSE Ok(LTrim(Sem(e, env, t, 0, s)))
================================================================================
