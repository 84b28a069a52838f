----------------------------- MODULE GeometryMC -----------------------------
(* Design check: a layout is accepted exactly when every point of the domain  *)
(* belongs to one piece, so that the markers are well defined.  All layouts   *)
(* of up to three pieces with any end points.                                 *)
EXTENDS Geometry, TLC
CONSTANT N
VARIABLE g
Iv == {<<a, b>> : a \in -1..(N + 1), b \in -1..(N + 1)}
Ms(n) == [1..n -> Iv]
Init == \E n \in 1..3 : \E f \in Ms(n) :
          g = [verts |-> <<0, N>>, mats |-> [i \in 1..n |-> [id |-> <<i>>, b |-> <<f[i]>>, none |-> FALSE]]]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
P == Pieces(g)
CoverOnce == /\ \A i \in DOMAIN P : P[i].lo < P[i].hi /\ P[i].lo >= 0 /\ P[i].hi <= N
             /\ \A u \in 0..(N - 1) : Cardinality({i \in DOMAIN P : P[i].lo <= u /\ u + 1 <= P[i].hi}) = 1
Equivalent == Accepted(g) <=> CoverOnce
Unique == Accepted(g) => \A u \in 0..(N - 1) : Cardinality(Owners(g, 2 * u + 1)) = 1
=============================================================================
