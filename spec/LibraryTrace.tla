------------------------------ MODULE LibraryTrace -----------------------------
EXTENDS Library, TraceKit
C3(c) == [c EXCEPT !.e = NF(@), !.lb = NF(@), !.ub = NF(@)]
NFo(e) == IF e.k = "none" THEN e ELSE NF(e)
One(e, o) ==
  LET d == e.d IN
  Check("names", e.id, o.id)
  \cup Check("variables", [j \in DOMAIN d.vars |-> [d.vars[j] EXCEPT !.lb = NFo(@), !.ub = NFo(@)]],
             [j \in DOMAIN o.m.vars |-> [o.m.vars[j] EXCEPT !.lb = NFo(@), !.ub = NFo(@)]])
  \cup Check("variables", e.kinds, o.kinds)
  \cup Check("parameters", d.pars, o.m.pars)
  \cup Check("constraints", [j \in DOMAIN d.cons |-> C3(NormalC(d.cons[j]))], [j \in DOMAIN o.m.cons |-> C3(o.m.cons[j])])
  \cup Check("ports", d.ports, o.m.ports)
  \cup Check("ports", [j \in DOMAIN d.pfd |-> [d.pfd[j] EXCEPT !.e = NF(@)]], [j \in DOMAIN o.m.pfd |-> [o.m.pfd[j] EXCEPT !.e = NF(@)]])
  \cup Check("objective", <<NFo(d.objop), d.objinv>>, <<NFo(o.m.objs[1]), o.m.objs[2]>>)
Verdict(ev) ==
  LET o == ev.obs IN
  IF o.k = "err" /\ o.v = "preloaded" THEN Fail("crash", "preloaded libraries", o)
  ELSE LET r == Resolve(ev.libs, ev.pre) IN
  IF r.k = "err" THEN (IF o.k = "err" THEN {} ELSE Fail("accepted", r, "resolved"))
  ELSE IF o.k = "err" THEN Fail("rejected", "libraries", o)
  ELSE IF DOMAIN r.v # {o.v.libs[j].id : j \in DOMAIN o.v.libs} THEN Fail("names", DOMAIN r.v, o.v.libs)
  ELSE UNION {LET x == o.v.libs[j].id  e == r.v[x]  g == o.v.libs[j] IN
              Check("port types", e.types, g.types)
              \cup (IF Len(e.models) # Len(g.models) THEN Fail("names", Len(e.models), Len(g.models))
                    ELSE UNION {One(e.models[q], g.models[q]) : q \in DOMAIN e.models})
              : j \in DOMAIN o.v.libs}
       \cup Check("contexts", TRUE, o.v.ctx)
       \cup Check("preloaded", TRUE, o.v.kept)
Spec == KitInit /\ [][KitNext]_i
Ok_  == Report(Verdict(Events[i]))
================================================================================
