-------------------------------- MODULE TraceKit -------------------------------
(* Common part of the trace specifications: one recorded event per state, eight   *)
(* chains visited in parallel; Report never fails: it prints every disagreement   *)
(* between the recorded observation and the specification.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Events)
ASSUME PrintT("EVENTS " \o ToString(N))

VARIABLE i
W        == 64
KitInit  == i \in 1..(IF N < W THEN N ELSE W)
KitNext  == i + W <= N /\ i' = i + W
\* fails: set of [clause, exp, got]
Report(fails) == \A f \in fails : PrintT("MISMATCH " \o ToJson([i |-> i - 1, f |-> f]))
Fail(c, e, g) == {[clause |-> c, exp |-> ToString(e), got |-> ToString(g)]}
Check(c, e, g) == IF e = g THEN {} ELSE Fail(c, e, g)
================================================================================
