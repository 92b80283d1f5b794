---------------------------------- MODULE Output -------------------------------
(* Result tables: values per component, variable, time step and scenario;         *)
(* comparison of tables with ignored parts; tables read from a solved problem.    *)
EXTENDS Build

\* a value as given or read: number, list (one per scenario), list of lists
\* (scenario, then time step); stored as [S, T, at] 
Store(x) ==
  CASE x.k = "n" -> [S |-> 1, T |-> 1, at |-> (<<0, 0>> :> x.v)]
    [] x.k = "l" -> [S |-> Len(x.v), T |-> 1, at |-> [y \in {<<0, s>> : s \in 0..(Len(x.v) - 1)} |-> x.v[y[2] + 1]]]
    [] x.k = "m" -> [S |-> Len(x.v), T |-> Len(x.v[Len(x.v)]),    \* rows need not have the same length
                     at |-> [y \in UNION {{<<t, s>> : t \in 0..(Len(x.v[s + 1]) - 1)} : s \in 0..(Len(x.v) - 1)} |->
                               x.v[y[2] + 1][y[1] + 1]]]
NoValue == [S |-> 0, T |-> 0, at |-> <<>>]
Show(z) == IF z.T = 1 THEN (IF z.S = 1 THEN [k |-> "n", v |-> z.at[<<0, 0>>]]
                            ELSE [k |-> "l", v |-> [s \in 1..z.S |-> z.at[<<0, s - 1>>]]])
           ELSE [k |-> "m", v |-> [s \in 1..z.S |-> [t \in 1..z.T |-> z.at[<<t - 1, s - 1>>]]]]

\* a table: [component -> [ign, vars : [name -> [ign, z]]]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
CompT(o, c) == IF c \in DOMAIN o THEN o[c] ELSE [ign |-> FALSE, vars |-> <<>>]
VarT(o, c, v) == LET x == CompT(o, c) IN IF v \in DOMAIN x.vars THEN x.vars[v] ELSE [ign |-> FALSE, z |-> NoValue]
PutVar(o, c, v, w) == With(o, c, [CompT(o, c) EXCEPT !.vars = With(@, v, w)])

NearVal(a, b, rel, abs) == a = b \/ (~(rel = RZero /\ abs = RZero) /\ Near(a, b, rel, abs))
NearVar(a, b, rel, abs) ==
  a.ign \/ b.ign \/ (a.z.S = b.z.S /\ a.z.T = b.z.T /\ DOMAIN a.z.at = DOMAIN b.z.at
                     /\ \A y \in DOMAIN a.z.at : NearVal(a.z.at[y], b.z.at[y], rel, abs))
NearComp(a, b, rel, abs) ==
  \/ a.ign \/ b.ign
  \/ /\ \A v \in DOMAIN a.vars \ DOMAIN b.vars : a.vars[v].ign
     /\ \A v \in DOMAIN b.vars \ DOMAIN a.vars : b.vars[v].ign
     /\ \A v \in DOMAIN a.vars \cap DOMAIN b.vars : NearVar(a.vars[v], b.vars[v], rel, abs)
NearTab(a, b, rel, abs) ==
  /\ \A c \in DOMAIN a \ DOMAIN b : a[c].ign
  /\ \A c \in DOMAIN b \ DOMAIN a : b[c].ign
  /\ \A c \in DOMAIN a \cap DOMAIN b : NearComp(a[c], b[c], rel, abs)

\* one operation on a heap of tables
StepT(h, op) ==
  LET o == h[op.n] IN
  CASE op.op = "set"  -> [h |-> [h EXCEPT ![op.n] = PutVar(o, op.c, op.v, [VarT(o, op.c, op.v) EXCEPT !.z = Store(op.x)])], out |-> "done"]
    [] op.op = "ignv" -> [h |-> [h EXCEPT ![op.n] = PutVar(o, op.c, op.v, [VarT(o, op.c, op.v) EXCEPT !.ign = op.b])], out |-> "done"]
    [] op.op = "ignc" -> [h |-> [h EXCEPT ![op.n] = With(o, op.c, [CompT(o, op.c) EXCEPT !.ign = op.b])], out |-> "done"]
    [] op.op = "get"  -> LET w == VarT(o, op.c, op.v) IN
                         [h |-> [h EXCEPT ![op.n] = PutVar(o, op.c, op.v, w)], out |-> Show(w.z)]
    [] op.op = "eq"   -> [h |-> h, out |-> NearTab(o, h[op.m], RZero, RZero)]
    [] op.op = "near" -> [h |-> h, out |-> NearTab(o, h[op.m], op.rel, op.abs)]
    \* two components, or two variables, possibly of different names
    [] op.op \in {"nearc", "nearv"} ->
         LET a  == VarT(o, op.c, op.v)
             h1 == [h EXCEPT ![op.n] = IF op.op = "nearc" THEN With(o, op.c, CompT(o, op.c)) ELSE PutVar(o, op.c, op.v, a)]
             p  == h1[op.m]
             b  == VarT(p, op.c2, op.v2)
             h2 == [h1 EXCEPT ![op.m] = IF op.op = "nearc" THEN With(p, op.c2, CompT(p, op.c2)) ELSE PutVar(p, op.c2, op.v2, b)]
             x  == h2[op.n][op.c]
             y  == h2[op.m][op.c2]
         IN [h |-> h2,
             out |-> IF op.op = "nearc" THEN x.ign \/ y.ign \/ (op.c = op.c2 /\ NearComp(x, y, op.rel, op.abs))
                     ELSE a.ign \/ b.ign \/ (op.v = op.v2 /\ NearVar(a, b, op.rel, op.abs))]
RECURSIVE OutsT(_, _)
OutsT(h, ops) == IF ops = <<>> THEN <<>>
                 ELSE LET r == StepT(h, ops[1]) IN <<r.out>> \o OutsT(r.h, Tail(ops))

\* --------------------------------------- the table of a solved problem
\* sol: function from solver variable names to values
TableOf(sys, req, sol) ==
  LET vk == VarKeys(sys, req)
      cs == {y[1] : y \in vk}
      T0(y) == IF y[3] = -1 THEN 0 ELSE y[3]
      S0(y) == IF y[4] = -1 THEN 0 ELSE y[4]
  IN [c \in cs |->
       [v \in {y[2] : y \in {y \in vk : y[1] = c}} |->
          LET ys == {y \in vk : y[1] = c /\ y[2] = v} IN
          Show([S |-> Max({S0(y) : y \in ys}) + 1, T |-> Max({T0(y) : y \in ys}) + 1,
                at |-> [p \in {<<T0(y), S0(y)>> : y \in ys} |->
                          LET y == CHOOSE y \in ys : <<T0(y), S0(y)>> = p IN sol[VName(req, y[1], y[2], y[3], y[4])]]])]]
================================================================================
