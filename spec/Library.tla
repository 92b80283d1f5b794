---------------------------------- MODULE Library ------------------------------
(* Libraries of models written in YAML, depending on each other and on preloaded  *)
(* libraries.  lib = [id, deps, ptypes : <<[id, fields]>>, models]                *)
(* A model is textual: its expressions are token sequences (<<>> when absent),    *)
(* its flags "yes", "no" or "" (left to the default).                             *)
EXTENDS ModelCheck
LibIds(ls)  == {ls[j].id : j \in DOMAIN ls}
LibOf(ls, x) == ls[CHOOSE j \in DOMAIN ls : ls[j].id = x]
DepSet(l) == {l.deps[j] : j \in DOMAIN l.deps}
\* libraries reached from x by one or more dependencies
RECURSIVE Reach(_, _, _)
Reach(ls, todo, seen) ==
  LET new == UNION {IF x \in LibIds(ls) THEN DepSet(LibOf(ls, x)) ELSE {} : x \in todo} \ seen
  IN IF new = {} THEN seen ELSE Reach(ls, new, seen \cup new)
Below(ls, x) == Reach(ls, {x}, {})
Types(l) == {<<l.ptypes[j].id, l.ptypes[j].fields>> : j \in DOMAIN l.ptypes}
PreTypes(pre) == UNION {Types(pre[j]) : j \in DOMAIN pre}
\* port types a library can use: its own, those of its dependencies, the preloaded ones
Inherited(ls, pre, x) == PreTypes(pre) \cup UNION {Types(LibOf(ls, y)) : y \in Below(ls, x) \cap LibIds(ls)}
Visible(ls, pre, x) == Inherited(ls, pre, x) \cup Types(LibOf(ls, x))
Ids2(ts) == {t[1] : t \in ts}
WrongGraph(ls, pre) ==
  \/ \E x \in LibIds(ls) : x \in Below(ls, x)
  \/ \E x \in LibIds(ls) : ~(DepSet(LibOf(ls, x)) \subseteq LibIds(ls) \cup LibIds(pre))
WrongTypes(ls, pre) ==
  \E x \in LibIds(ls) :
     \/ Ids2(Types(LibOf(ls, x))) \cap Ids2(Inherited(ls, pre, x)) # {}
     \/ Cardinality(Ids2(Visible(ls, pre, x))) # Cardinality(Visible(ls, pre, x))

\* ------------------------------------------------------------ one textual model
Flag(f, default) == IF f = "" THEN default ELSE f = "yes"
IdsOf(tm) == [vars |-> [j \in DOMAIN tm.vars |-> tm.vars[j].id], pars |-> [j \in DOMAIN tm.pars |-> tm.pars[j].id]]
Text(ts, tm) == Parse(ts, IdsOf(tm))
OptText(ts, tm) == IF ts = <<>> THEN Ok(None) ELSE Text(ts, tm)
AllTexts(tm) ==
  UNION {{tm.vars[j].lb, tm.vars[j].ub} : j \in DOMAIN tm.vars}
  \cup UNION {{c.lb, c.ub, c.e} : c \in Range1(tm.cons) \cup Range1(tm.bcons)}
  \cup {tm.pfd[j].def : j \in DOMAIN tm.pfd} \cup {tm.obj}
BadText(tm) == \E ts \in AllTexts(tm) \ {<<>>} : Text(ts, tm).k = "err"
Or(e, d) == IF e.v.k = "none" THEN d ELSE e.v
\* the model it denotes, in the form ModelCheck judges
ConOf(tm, c, b) == [bind |-> b, n |-> c.id, e |-> Text(c.e, tm).v, lb |-> Or(OptText(c.lb, tm), Lit(RNegInf)), ub |-> Or(OptText(c.ub, tm), Lit(RInf))]
Denote(tm, types) ==
  [vars |-> [j \in DOMAIN tm.vars |-> [n |-> tm.vars[j].id, t |-> Flag(tm.vars[j].t, TRUE), s |-> Flag(tm.vars[j].s, TRUE),
                                       lb |-> OptText(tm.vars[j].lb, tm).v, ub |-> OptText(tm.vars[j].ub, tm).v]],
   pars |-> [j \in DOMAIN tm.pars |-> [n |-> tm.pars[j].id, t |-> Flag(tm.pars[j].t, FALSE), s |-> Flag(tm.pars[j].s, FALSE)]],
   cons |-> [j \in DOMAIN tm.bcons |-> ConOf(tm, tm.bcons[j], TRUE)] \o [j \in DOMAIN tm.cons |-> ConOf(tm, tm.cons[j], FALSE)],
   ports |-> [j \in DOMAIN tm.ports |-> [n |-> tm.ports[j].id, t |-> tm.ports[j].type]],
   pfd |-> [j \in DOMAIN tm.pfd |-> [p |-> tm.pfd[j].port, f |-> tm.pfd[j].field, e |-> Text(tm.pfd[j].def, tm).v]],
   objop |-> OptText(tm.obj, tm).v, objinv |-> None, types |-> types]
TypeFun(ts) == [x \in Ids2(ts) |-> (CHOOSE t \in ts : t[1] = x)[2]]
KindName(v) == IF v.type = "" THEN "CONTINUOUS" ELSE IF v.type = "integer" THEN "INTEGER" ELSE "CONTINUOUS"
BadKind(tm) == \E j \in DOMAIN tm.vars : tm.vars[j].type \notin {"", "continuous", "integer"}
WrongModel(tm, ts) ==
  IF tm.odd # "" \/ BadKind(tm) \/ BadText(tm) \/ (\E j \in DOMAIN tm.ports : tm.ports[j].type \notin Ids2(ts)) THEN {"text"}
  ELSE Reasons(Denote(tm, TypeFun(ts)))
\* odd: an unknown key, or a missing required one
WrongLib(ls, pre, x) ==
  LET l == LibOf(ls, x) IN
  \/ l.odd # ""
  \/ Cardinality({l.models[j].id : j \in DOMAIN l.models}) # Len(l.models)
  \/ \E j \in DOMAIN l.models : WrongModel(l.models[j], Visible(ls, pre, x)) # {}
Resolve(ls, pre) ==
  IF Cardinality(LibIds(ls)) # Len(ls) THEN Err("identifier")
  ELSE IF WrongGraph(ls, pre) THEN Err("dependencies")
  ELSE IF WrongTypes(ls, pre) THEN Err("port types")
  ELSE IF \E x \in LibIds(ls) : WrongLib(ls, pre, x) THEN Err("library")
  ELSE Ok([x \in LibIds(ls) |-> [types |-> TypeFun(Visible(ls, pre, x)),
                                 models |-> [j \in DOMAIN LibOf(ls, x).models |->
                                               [id |-> LibOf(ls, x).models[j].id,
                                                kinds |-> [i \in DOMAIN LibOf(ls, x).models[j].vars |-> KindName(LibOf(ls, x).models[j].vars[i])],
                                                d |-> Denote(LibOf(ls, x).models[j], TypeFun(Visible(ls, pre, x)))]]]])
================================================================================
