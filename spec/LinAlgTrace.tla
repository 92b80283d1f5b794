------------------------------- MODULE LinAlgTrace -----------------------------
EXTENDS LinAlg, TraceKit
\* obs.steps[j] = [r |-> "ok"/"err", h |-> seq of [c, m]] after step j
RECURSIVE Walk(_, _, _, _)
Walk(hist, steps, j, h) ==
  IF j > Len(hist) THEN {}
  ELSE LET s == Step(h, hist[j])
           o == steps[j]
           got == [l \in DOMAIN o.h |-> ToForm(o.h[l])]
       IN IF s.r # o.r THEN Fail("outcome", <<j, hist[j], s>>, <<o.r, got>>)
          ELSE IF s.h # got THEN Fail("value", <<j, hist[j], s.h>>, got)
          ELSE Walk(hist, steps, j + 1, s.h)
RECURSIVE Final(_, _, _)
Final(hist, j, h) == IF j > Len(hist) THEN h ELSE Final(hist, j + 1, Step(h, hist[j]).h)
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "heap", o)
  ELSE LET w == Walk(ev.hist, o.steps, 1, <<>>)
           h == Final(ev.hist, 1, <<>>) IN
       IF w # {} THEN w
       ELSE UNION {UNION {IF o.eq[j][l] = (h[j] = h[l]) THEN {} ELSE Fail("equal", <<h[j], h[l]>>, o.eq[j][l])
                          : l \in DOMAIN h} : j \in DOMAIN h}
            \cup UNION {IF o.zero[j] = (h[j] = LConst(RZero)) THEN {} ELSE Fail("zero", h[j], o.zero[j]) : j \in DOMAIN h}
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
