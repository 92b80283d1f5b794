------------------------------- MODULE RunnerTrace -----------------------------
EXTENDS Runner, TraceKit
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "an outcome", o)
  ELSE IF ev.kind = "command" THEN Check("command", OutC(ev), o.v)
  ELSE LET e == OutsR([disk |-> -1, sol |-> NoSol], ev.ops) IN
       UNION {(IF e[j].ok = "error" /\ o.v[j].ok = "no" THEN {} ELSE Check("outcome", e[j].ok, o.v[j].ok))
              \cup Check("solution", e[j].sol, o.v[j].sol)
              \cup Check("solution", Figures(e[j].sol), o.v[j].figures)
              \cup Check("debug", ev.ops[j].debug, o.v[j].lp)
              \cup Check("command", <<Command(ev.ops[j]), TRUE>>, <<o.v[j].cmd, o.v[j].cwd>>)
              : j \in DOMAIN e}
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
