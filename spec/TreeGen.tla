--------------------------------- MODULE TreeGen -------------------------------
(* All histories of at most MAXOPS operations on decision trees over two networks.*)
EXTENDS Tree, TLC, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
c(i, m) == [id |-> i, model |-> m, node |-> FALSE]
Nets == <<<<c("A", "m")>>, <<c("A", "m"), c("B", "k")>>>>
Vars == [m |-> {"cum", "inc"}, k |-> {"cum"}]
VARIABLES hist, h
Blank == [op |-> "", id |-> "", parent |-> 0, net |-> 1, prob |-> ROne, at |-> 1, kids |-> <<>>, cp |-> c("A", "m"), cc |-> c("A", "m"),
          cpv |-> "", ccv |-> "", civ |-> ""]
Roots == {j \in DOMAIN h : ~HasP(h[j])}
Ops == {[Blank EXCEPT !.op = "add", !.id = "n" \o ToString(Len(h) + 1), !.parent = p, !.net = x, !.prob = q]
          : p \in {0} \cup DOMAIN h, x \in 1..2, q \in {ROne, <<1, 2>>, <<3, 2>>}}
       \cup {[Blank EXCEPT !.op = "add", !.id = "n" \o ToString(Len(h) + 1), !.kids = ks, !.prob = q]
          : ks \in {<<j>> : j \in Roots} \cup {y \in {<<j, k>> : j, k \in Roots} : y[1] < y[2]}, q \in {ROne, <<1, 2>>, <<-1, 2>>}}
       \cup {[Blank EXCEPT !.op = "define", !.at = a, !.cp = y, !.cc = z, !.cpv = "cum", !.ccv = "cum", !.civ = v]
          : a \in DOMAIN h, y \in {c("A", "m"), c("B", "k")}, z \in {c("A", "m"), c("B", "k")}, v \in {"inc", "cum"}}
       \cup {[Blank EXCEPT !.op = "build", !.at = a] : a \in DOMAIN h}
After(op) == CASE op.op = "add" -> AddNode(h, op)
               [] op.op = "define" -> Define(h, Nets, Vars, op)
               [] op.op = "build" -> [h |-> h, ok |-> ProbOk(h, op.at)]
Init == hist = <<>> /\ h = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops : hist' = Append(hist, op) /\ h' = After(op).h
Spec == Init /\ [][Next]_<<hist, h>>
\* probabilities stay in [0, 1] and never exceed the parent's
Bounded == \A j \in DOMAIN h : RLe(RZero, h[j].prob) /\ RLe(h[j].prob, IF HasP(h[j]) THEN h[h[j].parent].prob ELSE ROne)
\* when every level sums up, the leaves share out the probability of the root
LeavesSum == \A j \in DOMAIN h : ProbOk(h, j) => SumProb(h, Leaves_(h, j)) = h[j].prob
\* couplings only name variables of the node and of its parent
Local == \A j \in DOMAIN h : \A k \in DOMAIN h[j].coup : h[j].coup[k].par # "" => HasP(h[j])
\* an operation touches one node at most, or only what is below the new node, and refused ones nothing
Frame == [][\A j \in DOMAIN h : \/ h'[j] = h[j]
                                \/ Last(hist').op = "define" /\ Last(hist').at = j
                                \/ /\ Last(hist').op = "add" /\ j \in Below(h, Last(hist').kids)
                                   /\ h'[j].coup = h[j].coup /\ RLe(h'[j].prob, h[j].prob)]_<<hist, h>>
Emit == Len(hist) < MaxOps \/ Last(hist).op # "build" \/ PrintT("CASE " \o ToJson(hist))
================================================================================
