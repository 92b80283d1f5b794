---------------------------------- MODULE Runner -------------------------------
(* Running the external solver on a decomposition, several times: the outcome of  *)
(* a run, and the solution held afterwards.                                       *)
EXTENDS Integers, Sequences, TLC
\* sol = [kind, cost]; op = [merge, rc, cost (-1 : the solver writes no solution file)]
\* disk : cost in the solution file left by earlier runs, or -1
NoSol == [kind |-> "none", cost |-> -1]
\* start: can the command be started?  fresh: the export directory was removed
StepR(st, op) ==
  LET old  == IF op.fresh THEN -1 ELSE st.disk
      disk == IF op.cost = -1 \/ ~op.start THEN old ELSE op.cost IN
  [st  |-> [disk |-> disk,
            sol |-> IF ~op.start \/ op.rc # 0 \/ disk = -1 THEN st.sol
                    ELSE [kind |-> IF op.merge THEN "merged" ELSE "decomposed", cost |-> disk]],
   out |-> IF ~op.start THEN "error" ELSE IF op.rc = 0 THEN "yes" ELSE "no"]
\* what a held solution shows: the file of cost c holds these figures, each under its own name
Figures(sol) ==
  IF sol.kind = "none" THEN <<>>
  ELSE LET c == sol.cost IN
       <<"investment", c - 4, "operation", 4, "candidates x y", c + 1, c + 2, "gaps", c + 3, c + 5,
         "status", "OPTIMAL" \o ToString(c), "stopped", "gap" \o ToString(c)>>
       \o IF sol.kind = "merged" THEN <<"bounds", c + 6, c + 7>> ELSE <<"iterations", c + 8, "duration", c + 9>>
Command(op) == IF ~op.start THEN "nothing"
               ELSE (IF op.merge THEN "merge_mps" ELSE "benders") \o " " \o op.solver \o " " \o ToString(op.log)
RECURSIVE OutsR(_, _)
OutsR(st, ops) == IF ops = <<>> THEN <<>>
                  ELSE LET r == StepR(st, ops[1]) IN <<[ok |-> r.out, sol |-> r.st.sol]>> \o OutsR(r.st, Tail(ops))
\* an external command started `times` times: its arguments are passed on as given, it runs in
\* its directory, its return code is handed back, and the caller stays where it was
RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN <<>> ELSE s \o Times(n - 1, s)
OutC(c) == [rcs  |-> Times(c.times, <<IF c.start THEN ToString(c.rc) ELSE "error">>),
            args |-> IF c.start THEN Times(c.times, c.args) ELSE <<>>,
            dirs |-> IF c.start THEN Times(c.times, <<TRUE>>) ELSE <<>>,
            cwd  |-> TRUE]
================================================================================
