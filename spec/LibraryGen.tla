------------------------------- MODULE LibraryGen ------------------------------
(* All dependency graphs over three libraries (and a preloaded one), each library *)
(* defining the port type "P" in one of two ways or not at all, and possibly      *)
(* using it in a model.                                                           *)
EXTENDS Library, Json, IOUtils
F == {"a", "b", "c"}
Deps == SUBSET {"a", "b", "c", "pre", "gone"}
Ptype(d) == CASE d = 0 -> <<>> [] d = 1 -> <<[id |-> "P", fields |-> <<"f">>]>> [] d = 2 -> <<[id |-> "P", fields |-> <<"g">>]>>
Mdl(u) == IF u THEN <<[id |-> "m", odd |-> "", pars |-> <<>>, vars |-> <<>>, ports |-> <<[id |-> "p", type |-> "P"]>>, pfd |-> <<>>,
                       bcons |-> <<>>, cons |-> <<>>, obj |-> <<>>]>> ELSE <<>>
L(x, ds, d, u) == [id |-> x, odd |-> "", deps |-> SetToSeq(ds), ptypes |-> Ptype(d), models |-> Mdl(u)]
VARIABLES ls, pre
vars == <<ls, pre>>
Small(S) == {ds \in Deps : Cardinality(ds) <= 2 /\ ds \subseteq S}
Init == /\ \E d \in 0..1 : pre = <<L("pre", {}, d, FALSE)>>
        /\ ls = <<>>
Next == /\ Len(ls) < 3
        /\ LET x == <<"a", "b", "c">>[Len(ls) + 1] IN
           \E ds \in Small(IF x = "a" THEN {"b", "c", "pre"} ELSE IF x = "b" THEN {"a", "b", "c"} ELSE {"a", "b", "gone"}),
              d \in (IF x = "c" THEN 0..1 ELSE 0..2), u \in (IF x = "b" THEN {FALSE} ELSE BOOLEAN) :
              ls' = Append(ls, L(x, ds, d, u)) /\ UNCHANGED pre
Spec == Init /\ [][Next]_vars
\* a resolved library never sees two meanings of a port type, and its models only use what it sees
Coherent == Len(ls) = 3 =>
  LET r == Resolve(ls, pre) IN
  r.k = "ok" => \A x \in DOMAIN r.v : \A t \in Types(LibOf(ls, x)) : r.v[x].types[t[1]] = t[2]
\* a type defined below is visible above, with the same meaning
Inherits == Len(ls) = 3 =>
  LET r == Resolve(ls, pre) IN
  r.k = "ok" => \A x \in DOMAIN r.v : \A y \in Below(ls, x) \cap DOMAIN r.v :
                  \A t \in DOMAIN r.v[y].types : t \in DOMAIN r.v[x].types /\ r.v[x].types[t] = r.v[y].types[t]
\* the order in which the libraries are given is irrelevant
Reversed == Len(ls) = 3 => Resolve(<<ls[3], ls[2], ls[1]>>, pre) = Resolve(ls, pre)
\* why libraries are rejected, to sample every reason
Why == LET r == Resolve(ls, pre) IN
       IF r.k = "ok" THEN "ok" ELSE IF r.v # "port types" THEN r.v
       ELSE IF \E x \in LibIds(ls) : Ids2(Types(LibOf(ls, x))) \cap Ids2(Inherited(ls, pre, x)) # {} THEN "twice" ELSE "conflict"
Emit == Len(ls) < 3 \/ PrintT("CASE " \o ToJson([libs |-> ls, pre |-> pre, fine |-> Why]))
================================================================================
