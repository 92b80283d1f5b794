-------------------------------- MODULE RunnerGen ------------------------------
(* All histories of at most MAXOPS runs of the external solver.                   *)
EXTENDS Runner, Json, IOUtils, SequencesExt
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES hist, st
op(m, rc, cost, start, fresh) == [merge |-> m, rc |-> rc, cost |-> cost, start |-> start, fresh |-> fresh, solver |-> "XPRESS", log |-> 0, debug |-> FALSE]
Ops == {op(m, rc, cost, TRUE, f) : m \in BOOLEAN, rc \in {0, 3}, cost \in {-1, 7, 9}, f \in BOOLEAN}
       \cup {op(m, 0, 7, FALSE, FALSE) : m \in BOOLEAN}
Init == hist = <<>> /\ st = [disk |-> -1, sol |-> NoSol]
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : hist' = Append(hist, o) /\ st' = StepR(st, o).st
Spec == Init /\ [][Next]_<<hist, st>>
\* the solution held is that of a run that succeeded, of its kind, with a cost some run wrote
Honest == st.sol # NoSol =>
  \E j \in DOMAIN hist : /\ hist[j].rc = 0 /\ hist[j].start
                         /\ st.sol.kind = (IF hist[j].merge THEN "merged" ELSE "decomposed")
                         /\ \E k \in 1..j : hist[k].cost = st.sol.cost
\* a run that fails keeps the solution; one that succeeds and writes a file exposes that file
Kept == [][LET o == Last(hist')  r == StepR(st, o) IN
           /\ r.out # "yes" => st'.sol = st.sol
           /\ r.out = "yes" /\ o.cost # -1 => st'.sol = [kind |-> IF o.merge THEN "merged" ELSE "decomposed", cost |-> o.cost]]_<<hist, st>>
Emit == hist = <<>> \/ PrintT("CASE " \o ToJson(hist))
================================================================================
