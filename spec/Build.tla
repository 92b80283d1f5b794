---------------------------------- MODULE Build --------------------------------
(* From a system (models, components, connections, data) and a request (block of  *)
(* time steps, number of scenarios, selection of the model parts, risk weight,    *)
(* decision-tree node) to the optimisation problem handed to the solver.          *)
(*                                                                                *)
(* sys  = [models, comps (nodes first, in order), conns, data, ptypes]            *)
(* req  = [block, S, strat, risk, tree, full]                                     *)
EXTENDS Ops

\* ----------------------------------------------------------------- data access
\* data of a tree that say nothing of a node are an error if they are read there
AtNode(d, node) ==
  IF d.k # "tree" THEN d
  ELSE IF node \in DOMAIN d.n THEN d.n[node] ELSE [k |-> "const", v |-> RZero, sc |-> <<>>, n |-> <<>>]
DataAt(d, t, s, node) ==
  LET x == AtNode(d, node)
      y == IF x.k \in {"sser", "tsser"} /\ x.sc # <<>> THEN x.sc[s + 1] ELSE s
  IN CASE x.k = "const" -> x.v
       [] x.k = "tser"  -> x.v[t + 1]
       [] x.k = "sser"  -> x.v[y + 1]
       [] x.k = "tsser" -> x.v[t + 1][y + 1]
DataDep(d, node) ==
  LET x == AtNode(d, node)
  IN [t |-> x.k \in {"tser", "tsser"}, s |-> x.k \in {"sser", "tsser"}]
Meets(d, st) ==
  CASE d.k = "const" -> TRUE
    [] d.k = "tser"  -> st.t
    [] d.k = "sser"  -> st.s
    [] d.k = "tsser" -> st.t /\ st.s
    [] d.k = "tree"  -> \A n \in DOMAIN d.n :
                          CASE d.n[n].k = "const" -> TRUE
                            [] d.n[n].k = "tser"  -> st.t
                            [] d.n[n].k = "sser"  -> st.s
                            [] d.n[n].k = "tsser" -> st.t /\ st.s

\* -------------------------------------------------------------------- the system
CompIds(sys)    == {sys.comps[j].id : j \in DOMAIN sys.comps}
CompOf(sys, id) == sys.comps[CHOOSE j \in DOMAIN sys.comps : sys.comps[j].id = id]
ModelOf(sys, id) == sys.models[CompOf(sys, id).model]
HasData(sys, c, p) == c \in DOMAIN sys.data /\ p \in DOMAIN sys.data[c]

DataOk(sys) ==
  \A j \in DOMAIN sys.comps :
    LET c == sys.comps[j].id  m == ModelOf(sys, c) IN
    \A p \in DOMAIN m.pars : HasData(sys, c, p) /\ Meets(sys.data[c][p], m.pars[p])

\* st and val as Expr expects them, for one request
EnvOf(sys, req) ==
  [T |-> Len(req.block), S |-> req.S,
   st |-> [c \in CompIds(sys) |->
             LET m == ModelOf(sys, c) IN
             [n \in DOMAIN m.vars \cup DOMAIN m.pars |->
                IF n \in DOMAIN m.vars THEN [t |-> m.vars[n].t, s |-> m.vars[n].s]
                ELSE [t |-> m.pars[n].t, s |-> m.pars[n].s]]],
   val |-> [c \in CompIds(sys) |->
              [n \in DOMAIN ModelOf(sys, c).pars |->
                 [i \in 1..Len(req.block) |-> [j \in 1..(IF req.S = 0 THEN 1 ELSE req.S) |->
                    DataAt(sys.data[c][n], req.block[i], j - 1, req.tree)]]]]]

\* ------------------------------------------------------------------------- ports
FieldDef(m, p, f) == {j \in DOMAIN m.pfd : m.pfd[j].p = p /\ m.pfd[j].f = f}
\* expressions, with their component, that reach field f of port p of component c
Reaching(sys, c, p, f) ==
  LET ends(k) == (sys.conns[k].c1 = c /\ sys.conns[k].p1 = p) \/ (sys.conns[k].c2 = c /\ sys.conns[k].p2 = p)
      ks == SetToSortSeq({k \in DOMAIN sys.conns : ends(k)}, <)
      master(k) ==
        LET m1 == ModelOf(sys, sys.conns[k].c1)
            d1 == FieldDef(m1, sys.conns[k].p1, f)
        IN IF d1 # {} THEN InComp(m1.pfd[CHOOSE j \in d1 : TRUE].e, sys.conns[k].c1)
           ELSE LET m2 == ModelOf(sys, sys.conns[k].c2)
                    d2 == FieldDef(m2, sys.conns[k].p2, f)
                IN InComp(m2.pfd[CHOOSE j \in d2 : TRUE].e, sys.conns[k].c2)
  IN [i \in DOMAIN ks |-> master(ks[i])]
\* port fields replaced by what reaches them; a field needs exactly one definition
RECURSIVE ResolveP(_, _, _)
ResolveP(e, sys, c) ==
  CASE e.k = "port" -> LET xs == Reaching(sys, c, e.p, e.f) IN IF Len(xs) = 1 THEN xs[1] ELSE e
    [] e.k = "pagg" -> LET xs == Reaching(sys, c, e.p, e.f) IN
                       IF xs = <<>> THEN Lit(RZero) ELSE IF Len(xs) = 1 THEN xs[1] ELSE Add(xs)
    [] e.k \in Leaves -> e
    [] e.k = "add" -> Add([j \in DOMAIN e.as |-> ResolveP(e.as[j], sys, c)])
    [] e.k \in Binary -> [e EXCEPT !.a = ResolveP(@, sys, c), !.b = ResolveP(@, sys, c)]
    [] OTHER -> [e EXCEPT !.a = ResolveP(@, sys, c)]
Inst(e, sys, c) == ResolveP(InComp(e, c), sys, c)

\* --------------------------------------------------------------- what is selected
Keep(strat, ctx) ==
  CASE strat = "merged" -> TRUE
    [] strat = "investment"  -> ctx \in {"INVESTMENT", "COUPLING"}
    [] strat = "operational" -> ctx \in {"OPERATIONAL", "COUPLING"}
Objectives(strat, m) ==
  (IF strat \in {"merged", "operational"} /\ m.objop.k # "none" THEN <<m.objop>> ELSE <<>>)
  \o (IF strat \in {"merged", "investment"} /\ m.objinv.k # "none" THEN <<m.objinv>> ELSE <<>>)

\* a constraint as (expression, lower bound, upper bound)
Unb(x) == x.k = "lit" /\ IsInf(x.v)
Normal(k) ==
  IF k.e.k = "cmp"
  THEN [e |-> Add(<<k.e.a, Neg(k.e.b)>>),
        lb |-> IF k.e.op = "<=" THEN Lit(RNegInf) ELSE Lit(RZero),
        ub |-> IF k.e.op = ">=" THEN Lit(RInf) ELSE Lit(RZero)]
  ELSE [e |-> k.e, lb |-> k.lb, ub |-> k.ub]

\* value of a bound at (t, s); t or s = -1 when the object has no such dimension
RECURSIVE BoundAt(_, _, _, _, _, _)
BoundAt(e, sys, req, env, t, s) ==
  CASE e.k = "lit"  -> Ok(e.v)
    [] e.k = "cpar" ->
         LET d == DataDep(sys.data[e.c][e.n], req.tree) IN
         IF (d.t /\ t = -1) \/ (d.s /\ s = -1) THEN Err("index")
         ELSE Ok(env.val[e.c][e.n][IF t = -1 THEN 1 ELSE t + 1][IF s = -1 THEN 1 ELSE s + 1])
    [] e.k = "neg"  -> LET a == BoundAt(e.a, sys, req, env, t, s) IN
                       IF a.k = "ok" THEN Ok(RNeg(a.v)) ELSE a
    [] e.k = "add"  -> LET vs == [j \in DOMAIN e.as |-> BoundAt(e.as[j], sys, req, env, t, s)] IN
                       IF \E j \in DOMAIN vs : vs[j].k = "err" THEN Err("bound")
                       ELSE Ok(RSumSeq([j \in DOMAIN vs |-> vs[j].v]))
    [] e.k \in {"mul", "div"} ->
         LET a == BoundAt(e.a, sys, req, env, t, s)  b == BoundAt(e.b, sys, req, env, t, s) IN
         IF a.k = "err" \/ b.k = "err" THEN Err("bound")
         ELSE IF e.k = "mul" THEN Ok(RMul(a.v, b.v))
         ELSE IF b.v = RZero THEN Err("zero") ELSE Ok(RDiv(a.v, b.v))
    [] OTHER -> Err("bound")

\* ------------------------------------------------------------------------- naming
VName(req, c, n, t, s) ==
  (IF req.full /\ req.tree # "" THEN req.tree \o "_" ELSE "")
  \o (IF req.full THEN c \o "_" ELSE "")
  \o n
  \o (IF t # -1 /\ Len(req.block) > 1 THEN "_t" \o ToString(t) ELSE "")
  \o (IF s # -1 /\ req.S > 1 THEN "_s" \o ToString(s) ELSE "")
RName(c, k, t, s) == c \o "_" \o k \o "_t" \o ToString(t) \o "_s" \o ToString(s)

\* ---------------------------------------------------------------------- variables
VarKeys(sys, req) ==
  UNION {UNION {
      LET m == sys.models[sys.comps[j].model]  v == m.vars[n] IN
      {<<sys.comps[j].id, n, t, s>> :
          t \in IF v.t THEN 0..(Len(req.block) - 1) ELSE {-1},
          s \in IF v.s THEN 0..(req.S - 1) ELSE {-1}}
      : n \in {n \in DOMAIN sys.models[sys.comps[j].model].vars :
                 Keep(req.strat, sys.models[sys.comps[j].model].vars[n].ctx)}}
    : j \in DOMAIN sys.comps}
VarAt(sys, req, env, y) ==
  LET v  == ModelOf(sys, y[1]).vars[y[2]]
      lb == IF v.lb.k = "none" THEN Ok(RNegInf) ELSE BoundAt(InComp(v.lb, y[1]), sys, req, env, y[3], y[4])
      ub == IF v.ub.k = "none" THEN Ok(RInf) ELSE BoundAt(InComp(v.ub, y[1]), sys, req, env, y[3], y[4])
  IN IF lb.k = "err" \/ ub.k = "err" THEN Err("bound")
     ELSE IF RLt(ub.v, lb.v) THEN Err("empty range")
     ELSE IF v.type = "boolean" THEN Ok([lb |-> RZero, ub |-> ROne, int |-> TRUE])
     ELSE Ok([lb |-> lb.v, ub |-> ub.v, int |-> v.type = "integer"])

\* -------------------------------------------------------------------- constraints
\* instances of one constraint: (component, constraint, t, s)
RowKeys(sys, req, env) ==
  UNION {UNION {
      LET c == sys.comps[j].id
          k == sys.models[sys.comps[j].model].cons[n]
          z == Normal(k)
          x == OrIdx({Index(Inst(z.e, sys, c), env), Index(InComp(z.lb, c), env), Index(InComp(z.ub, c), env)})
      IN {<<j, n, t, s>> : t \in IF x.t THEN 0..(env.T - 1) ELSE {0},
                           s \in IF x.s THEN 0..(env.S - 1) ELSE {0}}
      : n \in {n \in DOMAIN sys.models[sys.comps[j].model].cons :
                 Keep(req.strat, sys.models[sys.comps[j].model].cons[n].ctx)}}
    : j \in DOMAIN sys.comps}
Unresolved(sys, req) ==
  \E j \in DOMAIN sys.comps :
    LET m == sys.models[sys.comps[j].model] IN
    \E n \in DOMAIN m.cons : Keep(req.strat, m.cons[n].ctx)
                             /\ HasAnywhere(Inst(Normal(m.cons[n]).e, sys, sys.comps[j].id), {"port", "var", "par"})
RowAt(sys, req, env, y) ==
  LET c == sys.comps[y[1]].id
      k == sys.models[sys.comps[y[1]].model].cons[y[2]]
      z == Normal(k)
      e == Meaning(Inst(z.e, sys, c), env, y[3], y[4])
      lb == BoundAt(InComp(z.lb, c), sys, req, env, y[3], y[4])
      ub == BoundAt(InComp(z.ub, c), sys, req, env, y[3], y[4])
  IN IF e.k = "err" THEN e
     ELSE IF lb.k = "err" \/ ub.k = "err" THEN Err("bound")
     ELSE Ok([lb |-> RSub(lb.v, e.v.c), ub |-> RSub(ub.v, e.v.c), m |-> e.v.m])

\* ---------------------------------------------------------------------- objective
ObjParts(sys, req, env) ==
  LET one(j) == LET os == Objectives(req.strat, sys.models[sys.comps[j].model]) IN
                [i \in DOMAIN os |-> Meaning(Mul(Lit(req.risk), Inst(os[i], sys, sys.comps[j].id)), env, 0, 0)]
  IN FoldLeft(LAMBDA acc, j : acc \o one(j), <<>>, [j \in DOMAIN sys.comps |-> j])

\* variables an expression mentions, possibly with a zero coefficient
Mentioned(sys, req, env) ==
  UNION {LET c == sys.comps[y[1]].id
             z == Normal(sys.models[sys.comps[y[1]].model].cons[y[2]])
         IN DOMAIN Sem(Inst(z.e, sys, c), env, y[3], 0, y[4]).m : y \in RowKeys(sys, req, env)}
  \cup UNION {LET os == Objectives(req.strat, sys.models[sys.comps[j].model]) IN
              UNION {DOMAIN Sem(Inst(os[i], sys, sys.comps[j].id), env, 0, 0, 0).m : i \in DOMAIN os}
              : j \in DOMAIN sys.comps}
\* ------------------------------------------------------------------------ problem
Named(req, f) == [x \in {VName(req, y[1], y[2], y[3], y[4]) : y \in DOMAIN f} |->
                    f[CHOOSE y \in DOMAIN f : VName(req, y[1], y[2], y[3], y[4]) = x]]
\* parameters read to write the problem, as <<component, parameter>>
RECURSIVE ParsOf(_)
ParsOf(e) ==
  CASE e.k = "cpar" -> {<<e.c, e.n>>}
    [] e.k \in Leaves -> {}
    [] e.k = "add" -> UNION {ParsOf(e.as[j]) : j \in DOMAIN e.as}
    [] e.k \in Binary -> ParsOf(e.a) \cup ParsOf(e.b)
    [] OTHER -> ParsOf(e.a)
ReadPars(sys, req) ==
  UNION {LET c == sys.comps[j].id
             m == sys.models[sys.comps[j].model]
             os == Objectives(req.strat, m)
             bound(b) == IF b.k = "none" THEN {} ELSE ParsOf(InComp(b, c))
         IN UNION {bound(m.vars[n].lb) \cup bound(m.vars[n].ub) :
                     n \in {n \in DOMAIN m.vars : Keep(req.strat, m.vars[n].ctx)}}
            \cup UNION {LET z == Normal(m.cons[n]) IN ParsOf(Inst(z.e, sys, c)) \cup bound(z.lb) \cup bound(z.ub) :
                     n \in {n \in DOMAIN m.cons : Keep(req.strat, m.cons[n].ctx)}}
            \cup UNION {ParsOf(Inst(os[i], sys, c)) : i \in DOMAIN os}
         : j \in DOMAIN sys.comps}
NodeMissing(sys, req) ==
  /\ \E c \in DOMAIN sys.data : \E p \in DOMAIN sys.data[c] :
        sys.data[c][p].k = "tree" /\ req.tree \notin DOMAIN sys.data[c][p].n
  /\ \E y \in ReadPars(sys, req) :
        LET d == sys.data[y[1]][y[2]] IN d.k = "tree" /\ req.tree \notin DOMAIN d.n
\* rows that share their name are all there
Together(S, f) == IF Cardinality(S) = 1 THEN f[CHOOSE x \in S : TRUE]
                  ELSE [lb |-> <<-1, -1>>, ub |-> <<Cardinality(S), -1>>,
                        m |-> ("several" :> {<<f[x], Cardinality({y \in S : f[y] = f[x]})>> : x \in S})]
Problem(sys, req) ==
  IF ~DataOk(sys) THEN Err("data")
  ELSE IF Unresolved(sys, req) THEN Err("port")
  ELSE IF NodeMissing(sys, req) THEN Err("tree data")
  ELSE
  LET env  == EnvOf(sys, req)
      vk   == VarKeys(sys, req)
      vars == [y \in vk |-> VarAt(sys, req, env, y)]
      rk   == RowKeys(sys, req, env)
      rows == [y \in rk |-> RowAt(sys, req, env, y)]
      objs == ObjParts(sys, req, env)
      used == UNION {IF rows[y].k = "ok" THEN DOMAIN rows[y].v.m ELSE {} : y \in rk}
              \cup UNION {IF objs[j].k = "ok" THEN DOMAIN objs[j].v.m ELSE {} : j \in DOMAIN objs}
  IN IF \E y \in vk : vars[y].k = "err" THEN Err("variable")
     ELSE IF \E y \in rk : rows[y].k = "err" THEN Err("constraint")
     ELSE IF \E j \in DOMAIN objs : objs[j].k = "err" THEN Err("objective")
     ELSE IF ~(used \subseteq vk) THEN Err("variable not selected")
     \* the exported files tell variables by their names
     ELSE IF Cardinality({VName(req, y[1], y[2], y[3], y[4]) : y \in vk}) # Cardinality(vk) THEN Err("names")
     ELSE IF ~(Mentioned(sys, req, env) \subseteq vk) THEN [k |-> "any"]
     ELSE LET o == LTrim(LSum([j \in DOMAIN objs |-> objs[j].v])) IN
          Ok([vars |-> [x \in {VName(req, y[1], y[2], y[3], y[4]) : y \in vk} |->
                          vars[CHOOSE y \in vk : VName(req, y[1], y[2], y[3], y[4]) = x].v],
              rows |-> [x \in {RName(sys.comps[y[1]].id, sys.models[sys.comps[y[1]].model].cons[y[2]].name, y[3], y[4]) : y \in rk} |->
                          LET ys == {y \in rk : RName(sys.comps[y[1]].id, sys.models[sys.comps[y[1]].model].cons[y[2]].name, y[3], y[4]) = x}
                          IN Together(ys, [y \in ys |-> [lb |-> rows[y].v.lb, ub |-> rows[y].v.ub, m |-> Named(req, rows[y].v.m)]])],
              obj  |-> [c |-> o.c, m |-> Named(req, o.m)]])

\* ------------------------------------------------- an observed problem, same shape
ByName(s, f(_)) == [x \in {s[j].name : j \in DOMAIN s} |-> f(s[CHOOSE j \in DOMAIN s : s[j].name = x])]
ByNameR(s, f(_)) == [x \in {s[j].name : j \in DOMAIN s} |->
                      LET js == {j \in DOMAIN s : s[j].name = x} IN Together(js, [j \in js |-> f(s[j])])]
ObsM(m) == [x \in {m[j].n : j \in DOMAIN m} |-> m[CHOOSE j \in DOMAIN m : m[j].n = x].v]
ObsVar(v) == [lb |-> v.lb, ub |-> v.ub, int |-> v.int]
ObsRow(r) == [lb |-> r.lb, ub |-> r.ub, m |-> ObsM(r.m)]
DiffKeys(a, b) == {x \in DOMAIN a \cup DOMAIN b : ~(x \in DOMAIN a /\ x \in DOMAIN b /\ a[x] = b[x])}
Restr(a, S) == [x \in (DOMAIN a) \cap S |-> a[x]]
\* cutting the references at the border is not available: it is refused, not replaced by the cycle
TimeUsed(sys, req) ==
  LET env == EnvOf(sys, req) IN
  \E y \in RowKeys(sys, req, env) : LET r == RowAt(sys, req, env, y) IN r.k = "ok" /\ \E x \in DOMAIN r.v.m : x[3] >= 0
================================================================================
