--------------------------------- MODULE Benders -------------------------------
(* Decomposition of an investment problem over a decision tree: one master for    *)
(* the investment decisions of every node with the coupling constraints, and one  *)
(* operational subproblem per node and block; the structure file relates columns. *)
(*                                                                                *)
(* w = [models, ptypes, data, nets : <<[comps, conns]>>, cfg : [id -> [blocks, S]]]*)
EXTENDS Build, Tree
SysOf(w, x) == [models |-> w.models, ptypes |-> w.ptypes, data |-> w.data, comps |-> w.nets[x].comps, conns |-> w.nets[x].conns]
MasterReq(n) == [block |-> <<0>>, S |-> 0, strat |-> "investment", risk |-> n.prob, tree |-> n.id, full |-> TRUE]
SubReq(w, n, b) == [block |-> b.steps, S |-> w.cfg[n.id].S, strat |-> "operational", risk |-> n.prob, tree |-> n.id, full |-> TRUE]

\* the problems to build: <<node, block or 0>>
Parts(w, h, r) ==
  LET one(j) == <<<<j, 0>>>> \o [b \in DOMAIN w.cfg[h[j].id].blocks |-> <<j, b>>]
  IN FoldLeft(LAMBDA acc, j : acc \o one(j), <<>>, SubTree(h, r))
PartProblem(w, h, y) ==
  LET n == h[y[1]] IN
  IF y[2] = 0 THEN Problem(SysOf(w, n.net), MasterReq(n))
  ELSE Problem(SysOf(w, n.net), SubReq(w, n, w.cfg[n.id].blocks[y[2]]))
SubName(w, h, r, y) ==
  LET n == h[y[1]] IN
  "subproblem" \o (IF Len(SubTree(h, r)) > 1 THEN "_" \o n.id ELSE "")
  \o (IF Len(w.cfg[n.id].blocks) > 1 THEN "_b" \o ToString(w.cfg[n.id].blocks[y[2]].id) ELSE "")

\* coupling rows
CoupRow(k) ==
  LET ns == {k.cum, k.inc} \cup (IF k.par = "" THEN {} ELSE {k.par})
      co(x) == (IF x = k.cum THEN 1 ELSE 0) - (IF x = k.inc THEN 1 ELSE 0) - (IF x = k.par THEN 1 ELSE 0)
  IN [lb |-> RZero, ub |-> RZero, m |-> [x \in {x \in ns : co(x) # 0} |-> R(co(x))]]
\* the master: masters of the nodes put together with the coupling
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
RECURSIVE OverAll(_, _)
OverAll(f, gs) == IF gs = <<>> THEN f ELSE OverAll(Over(f, gs[1]), Tail(gs))
Prefixed(p, rows) == [x \in {p \o "_" \o y : y \in DOMAIN rows} |-> rows[CHOOSE y \in DOMAIN rows : p \o "_" \o y = x]]
Master(w, h, r, ms) ==    \* ms : problems of the nodes of the subtree, in order
  LET ks == Couplings(h, r)  ns == SubTree(h, r) IN
  IF Len(ns) = 1 /\ ks = <<>> THEN ms[1]
  ELSE [vars |-> OverAll([x \in CoupVars(h, r) |-> [lb |-> RZero, ub |-> RInf, int |-> FALSE]], [j \in DOMAIN ms |-> ms[j].vars]),
        rows |-> OverAll([x \in {"coupling_" \o ks[j].name \o "_t0_s0" : j \in DOMAIN ks} |->
                            CoupRow(ks[CHOOSE j \in DOMAIN ks : "coupling_" \o ks[j].name \o "_t0_s0" = x])],
                         [j \in DOMAIN ms |-> Prefixed(IF Len(ns) > 1 THEN "master_" \o h[ns[j]].id ELSE "master", ms[j].rows)]),
        obj  |-> [c |-> RSumSeq([j \in DOMAIN ms |-> ms[j].obj.c]), m |-> OverAll(<<>>, [j \in DOMAIN ms |-> ms[j].obj.m])]]
RowNames(h, n, p) == {h[n].id \o "_" \o x : x \in DOMAIN p.rows}
Decomposition(w, h, r) ==
  IF ~ProbOk(h, r) THEN Err("probabilities")
  ELSE LET ys == Parts(w, h, r)
           ps == [j \in DOMAIN ys |-> PartProblem(w, h, ys[j])]
           mi == SetToSortSeq({j \in DOMAIN ys : ys[j][2] = 0}, <)
           si == SetToSortSeq({j \in DOMAIN ys : ys[j][2] # 0}, <)
       IN IF \E j \in DOMAIN ps : ps[j].k = "err" THEN Err("part")
          ELSE IF \E j \in DOMAIN ps : ps[j].k = "any" THEN [k |-> "any"]
          ELSE IF \E j, k \in DOMAIN si : j < k /\ SubName(w, h, r, ys[si[j]]) = SubName(w, h, r, ys[si[k]]) THEN Err("names")
          ELSE IF \E j, k \in DOMAIN mi : j < k /\ DOMAIN ps[mi[j]].v.vars \cap DOMAIN ps[mi[k]].v.vars # {} THEN Err("names")
          ELSE IF \E j, k \in DOMAIN mi : j < k /\ RowNames(h, ys[mi[j]][1], ps[mi[j]].v) \cap RowNames(h, ys[mi[k]][1], ps[mi[k]].v) # {}
               THEN [k |-> "any"]
          ELSE Ok([master |-> Master(w, h, r, [j \in DOMAIN mi |-> ps[mi[j]].v]),
                   subs |-> [j \in DOMAIN si |-> [name |-> SubName(w, h, r, ys[si[j]]), p |-> ps[si[j]].v]]])
\* the structure file, given the columns of the problems (names in solver order)
Structure(mcols, subs) ==
  {<<"master", mcols[j], j - 1>> : j \in DOMAIN mcols}
  \cup UNION {{<<subs[k].name, subs[k].cols[j], j - 1>> : j \in {j \in DOMAIN subs[k].cols : subs[k].cols[j] \in {mcols[i] : i \in DOMAIN mcols}}}
              : k \in DOMAIN subs}
================================================================================
