---------------------------------- MODULE LinAlg -------------------------------
(* Linear expressions as values: a heap of affine forms.  Binary operations append*)
(* a new form, in-place operations replace exactly one, failing ones change none. *)
EXTENDS Expr

ToForm(f) == LTrim([c |-> f.c, m |-> [y \in {x.y : x \in Range1(f.m)} |->
                                        (CHOOSE x \in Range1(f.m) : x.y = y).v]])
IsC(f) == DOMAIN f.m = {}
Arith(op, a, b) ==
  CASE op = "add" -> Ok(LTrim(LAdd(a, b)))
    [] op = "sub" -> Ok(LTrim(LAdd(a, LScale(R(-1), b))))
    [] op = "neg" -> Ok(LTrim(LScale(R(-1), a)))
    [] op = "mul" -> IF IsC(a) THEN Ok(LTrim(LScale(a.c, b)))
                     ELSE IF IsC(b) THEN Ok(LTrim(LScale(b.c, a))) ELSE Err("product")
    [] op = "div" -> IF ~IsC(b) THEN Err("division") ELSE IF b.c = RZero THEN Err("zero")
                     ELSE Ok(LTrim(LScale(RInv(b.c), a)))
\* step: [op, a, b, inplace] -> [h |-> heap, r |-> "ok" | "err"]
Step(h, s) ==
  IF s.op = "new" THEN [h |-> Append(h, ToForm(s.f)), r |-> "ok"]
  ELSE LET v == Arith(s.op, h[s.a], h[s.b]) IN
       IF v.k = "err" THEN [h |-> h, r |-> "err"]
       ELSE [h |-> IF s.inplace THEN [h EXCEPT ![s.a] = v.v] ELSE Append(h, v.v), r |-> "ok"]
================================================================================
