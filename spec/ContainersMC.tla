---------------------------- MODULE ContainersMC ----------------------------
(* Exhaustive: no sequence of operations puts a wrong item into a container.  *)
EXTENDS Containers
CONSTANTS MaxLen
VARIABLES s, n
Items == {1, 2, -1}
Seqs == {<<>>} \cup {<<x>> : x \in Items} \cup {<<x, y>> : x \in Items, y \in Items}
Ops == [op : {"append", "insert", "set"}, i : -2..2, xs : {<<x>> : x \in Items}, as : {"list"}]
       \cup [op : {"extend", "iadd", "new", "assign"}, i : {0}, xs : Seqs \ {<<>>}, as : {"list", "one", "none", "tuple", "self"}]
       \cup [op : {"pop"}, i : -2..2, xs : {<<1>>}, as : {"list"}] \cup [op : {"reverse", "clear"}, i : {0}, xs : {<<1>>}, as : {"list"}]
Init == s = <<>> /\ n = 0
Next == \E op \in Ops : \E o \in Outcomes(s, op) : Len(o.s) <= MaxLen /\ s' = o.s /\ n' = n
Spec == Init /\ [][Next]_<<s, n>>
OnlyGood == AllGood(s)
Decided == \A op \in Ops : Outcomes(s, op) # {}
=============================================================================
