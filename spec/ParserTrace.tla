------------------------------ MODULE ParserTrace ------------------------------
EXTENDS Parser, TraceKit

RECURSIVE WellTagged(_)
WellTagged(e) == e.k \in Leaves \cup Unary \cup Binary \cup {"add"}
                 /\ \A y \in Range1(Sub(e)) \cup Range1(Bounds(e)) : WellTagged(y)
Verdict(ev) ==
  LET m == Parse(ev.ts, ev.ids)
      o == ev.obs
  IN IF m.k = "err"
     THEN IF o.k = "ok" THEN Fail("accepted", m, o)
          ELSE IF o.v # "AntaresParseException" THEN Fail("error", m, o) ELSE {}
     ELSE IF o.k = "err" THEN Fail("rejected", m, o)
     ELSE IF ~WellTagged(o.v) THEN Fail("meaning", m, o)
     ELSE IF NF(o.v) = NF(m.v) THEN {} ELSE Fail("meaning", m, o)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
