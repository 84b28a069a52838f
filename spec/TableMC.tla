------------------------------- MODULE TableMC ------------------------------
(* Facts about the table: titles tell quantities apart (on one mesh, unless   *)
(* they measure the same thing), units have a consistent dimension, filters   *)
(* are monotone.                                                              *)
EXTENDS Table
VARIABLES q, r, m
Classes == (VolClasses \cup SurfClasses) \ {"HydrogenFlux", "ThermalFlux"}
Q == [cls : Classes, f : {"solute", "T"}, id : {1, 2}, x : {1}] \cup [cls : {"PointValue"}, f : {"solute", "T"}, id : {1, 2}, x : {1, 2}]
M == {[dim |-> d, geo |-> g, units |-> u] : d \in 1..3, g \in {"cartesian", "cylindrical", "spherical"}, u \in BOOLEAN}
OKM(k) == (k.geo = "spherical" => k.dim = 1) /\ (k.geo = "cylindrical" => k.dim < 3)
Init == q \in Q /\ r \in Q /\ m \in {k \in M : OKM(k)}
Next == UNCHANGED <<q, r, m>>
Spec == Init /\ [][Next]_<<q, r, m>>
Ads(a) == a.cls = "AdsorbedHydrogen"
Distinct == (m.geo \in Meant(q.cls) /\ m.geo \in Meant(r.cls) /\ Title(q, m) = Title(r, m)) =>
            \/ q = r
            \/ (Ads(q) /\ Ads(r) /\ q.id = r.id)
            \/ (q.cls = "PointValue" /\ r.cls = "PointValue" /\ m.dim = 1 /\ q.x = r.x /\ q.f = r.f)
\* the three coordinate systems agree on the unit of what is the same in 3D
Same3D == (m.dim = 3 /\ q.cls \in {"TotalVolume", "TotalSurface", "SurfaceFlux"}) =>
          Unit(q, m) = Unit([q EXCEPT !.cls = @ \o "Spherical"], [m EXCEPT !.dim = 1])
=============================================================================
