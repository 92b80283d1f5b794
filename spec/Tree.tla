----------------------------------- MODULE Tree --------------------------------
(* Decision trees: nodes with a probability relative to their parent, and the     *)
(* coupling constraints each node adds.  Nodes form a forest (several trees may   *)
(* live at the same time); a refused operation changes nothing.                   *)
(*                                                                                *)
(* node = [id, parent (0 for a root), prob (cumulative), coup : <<coupling>>]     *)
EXTENDS Rat, TLC, SequencesExt, FiniteSetsExt
HasP(n) == n.parent # 0
\* the node and its descendants; level by level, in order of addition
RECURSIVE Levels(_, _)
Levels(h, front) ==
  IF front = <<>> THEN <<>>
  ELSE front \o Levels(h, FoldLeft(LAMBDA acc, p : acc \o SetToSortSeq({j \in DOMAIN h : h[j].parent = p}, <), <<>>, front))
SubTree(h, r) == Levels(h, <<r>>)
Children(h, r) == {j \in DOMAIN h : h[j].parent = r}
SumProb(h, S) == RSumSeq([j \in 1..Cardinality(S) |-> h[SetToSortSeq(S, <)[j]].prob])
ProbOk(h, r) == \A j \in {SubTree(h, r)[i] : i \in DOMAIN SubTree(h, r)} :
                  Children(h, j) = {} \/ SumProb(h, Children(h, j)) = h[j].prob
Leaves_(h, r) == {j \in {SubTree(h, r)[i] : i \in DOMAIN SubTree(h, r)} : Children(h, j) = {}}

\* a node is added below a parent, above roots that become its children (op.kids), or both
Below(h, ks) == UNION {{SubTree(h, ks[j])[i] : i \in DOMAIN SubTree(h, ks[j])} : j \in DOMAIN ks}
AddNode(h, op) ==
  IF RLt(op.prob, RZero) \/ RLt(ROne, op.prob) THEN [h |-> h, ok |-> FALSE]
  ELSE LET new == [id |-> op.id, parent |-> op.parent, net |-> op.net, coup |-> <<>>,
                   prob |-> IF op.parent = 0 THEN op.prob ELSE RMul(op.prob, h[op.parent].prob)]
           kids == {op.kids[j] : j \in DOMAIN op.kids}
           old == [j \in DOMAIN h |->
                     IF j \notin Below(h, op.kids) THEN h[j]
                     ELSE [h[j] EXCEPT !.prob = RMul(@, new.prob), !.parent = IF j \in kids THEN Len(h) + 1 ELSE @]]
       IN [h |-> Append(old, new), ok |-> TRUE]
\* nets[x] : the components of a network, <<[id, model, node]>>; vars[m] : variables of a model
InNet(nets, x, c) == \E j \in DOMAIN nets[x] : nets[x][j] = c
Define(h, nets, vars, op) ==
  LET n == h[op.at]
      ok == /\ HasP(n) => InNet(nets, h[n.parent].net, op.cp)
            /\ InNet(nets, n.net, op.cc)
            /\ op.cpv \in vars[op.cp.model]
            /\ op.ccv \in vars[op.cc.model]
            /\ op.civ \in vars[op.cc.model]
      pre  == IF HasP(n) THEN h[n.parent].id \o "_" \o op.cp.id ELSE ""
      prc  == n.id \o "_" \o op.cc.id
  IN IF ~ok THEN [h |-> h, ok |-> FALSE]
     ELSE [h |-> [h EXCEPT ![op.at].coup = Append(@,
                    [name |-> pre \o "_" \o prc \o "_" \o ToString(Len(n.coup)),
                     par |-> IF HasP(n) THEN pre \o "_" \o op.cpv ELSE "",
                     cum |-> prc \o "_" \o op.ccv, inc |-> prc \o "_" \o op.civ])],
           ok |-> TRUE]
\* all couplings below r
Couplings(h, r) == FoldLeft(LAMBDA acc, j : acc \o h[j].coup, <<>>, SubTree(h, r))
CoupVars(h, r) == UNION {LET k == Couplings(h, r)[j] IN {k.cum, k.inc} \cup (IF k.par = "" THEN {} ELSE {k.par})
                         : j \in DOMAIN Couplings(h, r)}
================================================================================
