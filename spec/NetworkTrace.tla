------------------------------ MODULE NetworkTrace -----------------------------
EXTENDS Network, TraceKit
Same(ev) ==
  LET h == Run(ev.models, ev.types, <<Empty>>, ev.ops) IN
  [j \in DOMAIN h |->
     [id |-> h[j].id, nodes |-> h[j].nodes, comps |-> h[j].comps, conns |-> h[j].conns,
      empty |-> h[j].nodes = <<>> /\ h[j].comps = <<>> /\ h[j].conns = <<>>,
      \* what the look-ups answer, for every identifier of the history
      look |-> [a \in {ev.ids[l] : l \in DOMAIN ev.ids} |->
                  IF Known(h[j], a) THEN Lookup(h[j], a).m ELSE "none"],
      nlook |-> [a \in {ev.ids[l] : l \in DOMAIN ev.ids} |->
                  IF a \in Ids(h[j].nodes) THEN Find(h[j].nodes, a).m ELSE "none"],
      all |-> [l \in 1..(Len(h[j].nodes) + Len(h[j].comps)) |->
                  IF l <= Len(h[j].nodes) THEN h[j].nodes[l].id ELSE h[j].comps[l - Len(h[j].nodes)].id]]]
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" THEN Fail("crash", "an outcome", o)
  ELSE Check("outcome", Outcomes(ev.models, ev.types, <<Empty>>, ev.ops), o.oks)
       \cup Check("network", Same(ev), o.nets)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
