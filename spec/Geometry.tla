------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* 1D geometry: which layouts of materials are accepted, which subdomain   *)
(* each cell belongs to and which facets are surfaces.                     *)
(*                                                                         *)
(* A layout g has                                                          *)
(*   verts  positions of the mesh vertices, any order, maybe repeated      *)
(*   mats   sequence of [id, b, none]: ids, one border <<lo, hi>> per id   *)
(*          (none: the material has no borders)                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rg(s) == {s[i] : i \in DOMAIN s}
VSet(g) == Rg(g.verts)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Size(g) == MaxOf(VSet(g))

\* all borders with their id, as a sequence in the order given
RECURSIVE Flat(_, _)
Flat(ms, i) == IF i > Len(ms) THEN <<>>
               ELSE [k \in DOMAIN ms[i].b |-> [id |-> ms[i].id[k], lo |-> ms[i].b[k][1], hi |-> ms[i].b[k][2]]] \o Flat(ms, i + 1)
Pieces(g) == Flat(g.mats, 1)

\* the pieces cover [0, size] without gap or overlap
Tiles(g) ==
    LET p == Pieces(g) IN
    /\ \A i \in DOMAIN p : p[i].lo < p[i].hi
    /\ \E i \in DOMAIN p : p[i].lo = 0
    /\ \A i \in DOMAIN p : p[i].lo = 0 \/ Cardinality({j \in DOMAIN p : p[j].hi = p[i].lo}) = 1
    /\ \A i \in DOMAIN p : p[i].hi = Size(g) \/ Cardinality({j \in DOMAIN p : p[j].lo = p[i].hi}) = 1
    /\ Cardinality({i \in DOMAIN p : p[i].lo = 0}) = 1 /\ Cardinality({i \in DOMAIN p : p[i].hi = Size(g)}) = 1
Accepted(g) ==
    IF Len(g.mats) = 1 /\ g.mats[1].none THEN TRUE
    ELSE (\A i \in DOMAIN g.mats : ~g.mats[i].none) /\ Tiles(g)

\* ids a cell with midpoint m/2 may get (two when it lies on a border)
Owners(g, m2) == IF g.mats[1].none THEN {g.mats[1].id[1]}
                 ELSE {Pieces(g)[i].id : i \in {i \in DOMAIN Pieces(g) : 2 * Pieces(g)[i].lo <= m2 /\ m2 <= 2 * Pieces(g)[i].hi}}
\* cells: neighbouring distinct vertices
CellsOf(g) == {<<a, b>> \in VSet(g) \X VSet(g) : a < b /\ ~\E c \in VSet(g) : a < c /\ c < b}
SurfaceOf(g, x) == IF x = MinOf(VSet(g)) THEN 1 ELSE IF x = MaxOf(VSet(g)) THEN 2 ELSE 0
=============================================================================
