--------------------------------- MODULE Parser --------------------------------
(* The textual expression language: a token sequence denotes an expression or is  *)
(* rejected.  Tokens are records [k |-> kind, n |-> text, v |-> value of a number]*)
(* with kinds: num, id, t (the time index), sum, sumc (sum_connections), cmp, bad *)
(* (characters outside the language) and the punctuation itself.                  *)
(*                                                                                *)
(* Precedence, tightest first: unary minus; * and / (left to right); + and - (left*)
(* to right); comparisons (left to right).  Time operators apply to an identifier *)
(* or to a parenthesised expression only.                                         *)
EXTENDS Expr

\* result of parsing a prefix: ok, expression, next position
G(e, p) == [ok |-> TRUE,  e |-> e,    p |-> p]
B       == [ok |-> FALSE, e |-> None, p |-> 0]

Kind(ts, p) == IF p <= Len(ts) THEN ts[p].k ELSE "eof"

\* ids = [vars |-> seq of names, pars |-> seq of names]
RECURSIVE PExpr(_, _, _), PCmpRest(_, _, _), PSum(_, _, _), PSumRest(_, _, _),
          PMul(_, _, _), PMulRest(_, _, _), PUnary(_, _, _), PPrimary(_, _, _),
          PShift(_, _, _), PShiftRest(_, _, _),
          PRightRest(_, _, _), PIndex(_, _, _, _)

Ident(n, ids, p) ==
  IF n \in Range1(ids.vars) THEN G([k |-> "var", n |-> n], p)
  ELSE IF n \in Range1(ids.pars) THEN G([k |-> "par", n |-> n], p)
  ELSE B
EAdd(a, b) == Add(<<a, b>>)
ESub(a, b) == Add(<<a, Neg(b)>>)

PExpr(ts, p, ids) == LET a == PSum(ts, p, ids) IN IF a.ok THEN PCmpRest(ts, a, ids) ELSE B
PCmpRest(ts, a, ids) ==
  IF Kind(ts, a.p) = "cmp"
  THEN LET b == PSum(ts, a.p + 1, ids) IN
       IF b.ok THEN PCmpRest(ts, G(Cmp(a.e, b.e, ts[a.p].n), b.p), ids) ELSE B
  ELSE a

PSum(ts, p, ids) == LET a == PMul(ts, p, ids) IN IF a.ok THEN PSumRest(ts, a, ids) ELSE B
PSumRest(ts, a, ids) ==
  LET o == Kind(ts, a.p) IN
  IF o \in {"+", "-"}
  THEN LET b == PMul(ts, a.p + 1, ids) IN
       IF b.ok THEN PSumRest(ts, G(IF o = "+" THEN EAdd(a.e, b.e) ELSE ESub(a.e, b.e), b.p), ids)
       ELSE B
  ELSE a

PMul(ts, p, ids) == LET a == PUnary(ts, p, ids) IN IF a.ok THEN PMulRest(ts, a, ids) ELSE B
PMulRest(ts, a, ids) ==
  LET o == Kind(ts, a.p) IN
  IF o \in {"*", "/"}
  THEN LET b == PUnary(ts, a.p + 1, ids) IN
       IF b.ok THEN PMulRest(ts, G(IF o = "*" THEN Mul(a.e, b.e) ELSE Div(a.e, b.e), b.p), ids)
       ELSE B
  ELSE a

PUnary(ts, p, ids) ==
  IF Kind(ts, p) = "-"
  THEN LET a == PUnary(ts, p + 1, ids) IN IF a.ok THEN G(Neg(a.e), a.p) ELSE B
  ELSE PPrimary(ts, p, ids)

Close(ts, a, c) == IF a.ok /\ Kind(ts, a.p) = c THEN G(a.e, a.p + 1) ELSE B

\* what follows "[" : a shift "t ...", or an expression giving a time step
PIndex(ts, a, p, ids) ==
  IF Kind(ts, p) = "t"
  THEN LET s == Close(ts, PShift(ts, p, ids), "]") IN
       IF ~s.ok THEN B
       ELSE IF s.e = Lit(RZero) THEN G(a.e, s.p) ELSE G(Shift(a.e, s.e), s.p)
  ELSE LET s == Close(ts, PExpr(ts, p, ids), "]") IN
       IF s.ok THEN G(Eval(a.e, s.e), s.p) ELSE B

PPrimary(ts, p, ids) ==
  LET k == Kind(ts, p) IN
  CASE k = "num" -> G(Lit(ts[p].v), p + 1)
    [] k = "id" ->
         LET n == Kind(ts, p + 1) IN
         IF n = "."
         THEN IF Kind(ts, p + 2) = "id"
              THEN G([k |-> "port", p |-> ts[p].n, f |-> ts[p + 2].n], p + 3) ELSE B
         ELSE IF n = "("
         THEN LET a == Close(ts, PExpr(ts, p + 2, ids), ")") IN
              IF a.ok /\ ts[p].n = "expec" THEN G(Expec(a.e), a.p) ELSE B
         ELSE LET a == Ident(ts[p].n, ids, p + 1) IN
              IF ~a.ok THEN B
              ELSE IF n = "[" THEN PIndex(ts, a, p + 2, ids) ELSE a
    [] k = "(" ->
         LET a == Close(ts, PExpr(ts, p + 1, ids), ")") IN
         IF ~a.ok THEN B
         ELSE IF Kind(ts, a.p) = "[" THEN PIndex(ts, a, a.p + 1, ids) ELSE a
    [] k = "sum" ->
         IF Kind(ts, p + 1) # "(" THEN B
         ELSE IF Kind(ts, p + 2) = "t"
         THEN LET f == Close(ts, PShift(ts, p + 2, ids), "..") IN
              IF ~f.ok THEN B
              ELSE LET t == Close(ts, IF Kind(ts, f.p) = "t" THEN PShift(ts, f.p, ids) ELSE B, ",") IN
                   IF ~t.ok THEN B
                   ELSE LET a == Close(ts, PExpr(ts, t.p, ids), ")") IN
                        IF a.ok THEN G(TSum(a.e, f.e, t.e), a.p) ELSE B
         ELSE LET a == Close(ts, PExpr(ts, p + 2, ids), ")") IN
              IF a.ok THEN G(ASum(a.e), a.p) ELSE B
    [] k = "sumc" ->
         IF /\ Kind(ts, p + 1) = "(" /\ Kind(ts, p + 2) = "id" /\ Kind(ts, p + 3) = "."
            /\ Kind(ts, p + 4) = "id" /\ Kind(ts, p + 5) = ")"
         THEN G([k |-> "pagg", p |-> ts[p + 2].n, f |-> ts[p + 4].n], p + 6) ELSE B
    [] OTHER -> B

\* a shift: t, or t followed by a signed operand and further operands
PAtomOrParen(ts, p, ids) ==
  LET k == Kind(ts, p) IN
  IF k = "num" THEN G(Lit(ts[p].v), p + 1)
  ELSE IF k = "id" THEN Ident(ts[p].n, ids, p + 1)
  ELSE IF k = "(" THEN Close(ts, PExpr(ts, p + 1, ids), ")")
  ELSE B
\* usual precedence: a sequence of terms with signs, each term a product or quotient
PShift(ts, p, ids) ==
  LET o == Kind(ts, p + 1) IN
  IF o \notin {"+", "-"} THEN G(Lit(RZero), p + 1)
  ELSE LET a == PAtomOrParen(ts, p + 2, ids) IN
       IF ~a.ok THEN B
       ELSE LET f == PRightRest(ts, G(IF o = "-" THEN Neg(a.e) ELSE a.e, a.p), ids) IN
            IF f.ok THEN PShiftRest(ts, f, ids) ELSE B
PRightRest(ts, a, ids) ==
  LET o == Kind(ts, a.p) IN
  IF o \in {"*", "/"}
  THEN LET b == PAtomOrParen(ts, a.p + 1, ids) IN
       IF b.ok THEN PRightRest(ts, G(IF o = "*" THEN Mul(a.e, b.e) ELSE Div(a.e, b.e), b.p), ids)
       ELSE B
  ELSE a
PShiftRest(ts, a, ids) ==
  LET o == Kind(ts, a.p) IN
  IF o \in {"+", "-"}
  THEN LET x == PAtomOrParen(ts, a.p + 1, ids)
           b == IF x.ok THEN PRightRest(ts, x, ids) ELSE B IN
       IF b.ok THEN PShiftRest(ts, G(IF o = "+" THEN EAdd(a.e, b.e) ELSE ESub(a.e, b.e), b.p), ids)
       ELSE B
  ELSE a

Parse(ts, ids) ==
  LET a == PExpr(ts, 1, ids) IN
  IF a.ok /\ a.p = Len(ts) + 1 THEN Ok(a.e) ELSE Err("rejected")

(* Normal form used to compare expressions: sums are flattened into sequences of  *)
(* signed terms, negations pushed to the terms; everything else is kept.          *)
RECURSIVE NF(_), Terms(_, _)
Terms(e, sg) ==
  CASE e.k = "add" -> FoldLeft(LAMBDA acc, x : acc \o Terms(x, sg), <<>>, e.as)
    [] e.k = "neg" -> Terms(e.a, -sg)
    [] OTHER -> << [k |-> "term", sg |-> sg, e |-> NF(e)] >>
NF(e) ==
  CASE e.k \in {"add", "neg"} -> [k |-> "nf", as |-> Terms(e, 1)]
    [] e.k \in {"mul", "div", "cmp"} -> [e EXCEPT !.a = NF(@), !.b = NF(@)]
    [] e.k \in {"asum", "scen"} -> [e EXCEPT !.a = NF(@)]
    [] e.k \in {"shift", "eval"} -> [e EXCEPT !.a = NF(@), !.s = NF(@)]
    [] e.k = "tsum" -> [e EXCEPT !.a = NF(@), !.f = NF(@), !.t = NF(@)]
    [] OTHER -> e
================================================================================
