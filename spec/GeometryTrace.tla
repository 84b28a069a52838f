--------------------------- MODULE GeometryTrace ----------------------------
(* Recorded layouts: outcome, marker of every cell and facet, length of every *)
(* subdomain as the integration measure sees it (in 1/1000 of a unit).        *)
EXTENDS Geometry, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, done
Tr == Traces[tr]
G == Tr.g
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> 1]}
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN (c[2] - c[1]) + SumLen(S \ {c})
Clauses ==
    IF ~Accepted(G) THEN Flag("bad_layout_refused", Tr.end = "ValueError")
    ELSE Flag("good_layout_accepted", Tr.end = "ok")
    \cup IF Tr.end # "ok" THEN {} ELSE
    Flag("cells", {<<c[1], c[2]>> : c \in Rg(Tr.cells)} = CellsOf(G) /\ Len(Tr.cells) = Cardinality(CellsOf(G)))
    \cup Flag("cell_markers", \A c \in Rg(Tr.cells) : c[3] \in Owners(G, c[1] + c[2]))
    \cup Flag("surface_markers", \A f \in Rg(Tr.facets) : f[2] = SurfaceOf(G, f[1]))
    \cup Flag("facets", {f[1] : f \in Rg(Tr.facets)} = VSet(G))
    \cup Flag("measure", \A m \in Rg(Tr.lens) : m[2] = 1000 * SumLen({<<c[1], c[2]>> : c \in {c \in Rg(Tr.cells) : c[3] = m[1]}}))
    \cup Flag("ends", Tr.ends = <<1, 1>>)
TInit == tr \in 1..Len(Traces) /\ done = FALSE
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
         /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.cells), viol |-> Clauses]))
TSpec == TInit /\ [][TNext]_<<tr, done>>
=============================================================================
