------------------------------- MODULE ParserGen -------------------------------
(* All token sequences up to a length, and all extensions of viable prefixes.     *)
(* Checked on the specification itself: parsing a parenthesised expression gives  *)
(* the same expression; accepted expressions contain only known identifiers.      *)
EXTENDS Parser, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
tok(k, n, v) == [k |-> k, n |-> n, v |-> v]
P(k) == tok(k, k, RZero)
Alpha == {tok("num", "2", R(2)), tok("id", "x", RZero), tok("id", "p", RZero),
          P("t"), P("+"), P("-"), P("*"), P("/"), P("("), P(")"), P("["), P("]"),
          tok("cmp", "<=", RZero), P("sum"), P("..")}
Ids == [vars |-> <<"x">>, pars |-> <<"p">>]

VARIABLE ts
Init == ts = <<>>
Next == Len(ts) < MaxLen /\ \E a \in Alpha : ts' = Append(ts, a)
Spec == Init /\ [][Next]_ts
Parens == LET a == Parse(ts, Ids)  b == Parse(<<P("(")>> \o ts \o <<P(")")>>, Ids) IN
          ts # <<>> => (a.k = b.k /\ (a.k = "ok" => a.v = b.v))
RECURSIVE Known(_)
Known(e) == /\ e.k = "var" => e.n = "x"
            /\ e.k = "par" => e.n = "p"
            /\ \A y \in Range1(Sub(e)) \cup Range1(Bounds(e)) : Known(y)
OnlyKnown == LET a == Parse(ts, Ids) IN a.k = "ok" => Known(a.v)
Emit == PrintT("CASE " \o ToJson(ts))
================================================================================
