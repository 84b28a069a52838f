------------------------------ MODULE TableGen ------------------------------
EXTENDS Table, Json
VARIABLES m, qs, ks, stage
vars == <<m, qs, ks, stage>>
R(X) == RandomElement(X)
Wt(t) == t[R(DOMAIN t)]
Init == m = <<>> /\ qs = <<>> /\ ks = <<>> /\ stage = 0
Geo(g) == CASE g = 1 -> <<1, "cartesian">> [] g = 2 -> <<2, "cartesian">> [] g = 3 -> <<3, "cartesian">> [] g = 4 -> <<1, "cylindrical">> [] g = 5 -> <<2, "cylindrical">> [] OTHER -> <<1, "spherical">>
Mesh == /\ stage = 0
        /\ \E g \in {R(1..6)}, u \in {R(BOOLEAN)}, f \in {R(BOOLEAN)}, fs \in {Wt(<<"solute", "0", "int0">>)} :
             m' = [dim |-> Geo(g)[1], geo |-> Geo(g)[2], units |-> u, file |-> f, fs |-> fs]
        /\ stage' = 1 /\ UNCHANGED <<qs, ks>>
\* mostly the classes meant for the mesh
Cls(k) == LET all == (VolClasses \cup SurfClasses \cup {"PointValue"}) \ (IF m.dim = 1 THEN {} ELSE {"AdsorbedHydrogen"}) IN
          IF R(1..4) > 1 THEN R({c \in all : m.geo \in Meant(c)}) ELSE R({c \in all : c \notin Sph \/ m.dim = 1})
Solute(k) == IF m.fs = "int0" THEN "0" ELSE m.fs
Fld(c, k) == CASE c = "HydrogenFlux" -> "solute" [] c = "ThermalFlux" -> "T" [] c = "AdsorbedHydrogen" -> "adsorbed"
               [] c \in FluxClasses -> IF R({1, 2}) = 1 THEN "T" ELSE Solute(k)
               [] OTHER -> Wt(<<Solute(k), "T", "retention", "1">>)
Quants == /\ stage \in 1..6
          /\ \E c \in {Cls(stage)} : \E f \in {Fld(c, stage)}, i \in {R({1, 2})}, x \in {R(1..3)} :
               qs' = Append(qs, [cls |-> c, f |-> f, x |-> x, id |-> IF c = "AverageSurfaceCylindrical" THEN 2 ELSE i])  \* surface 1 is the axis
          /\ \E go \in {R({0, 1, 1})} : stage' = IF go = 0 THEN 7 ELSE stage + 1
          /\ UNCHANGED <<m, ks>>
Lst(S, k) == Wt(<<<<>>, <<R(S)>>, <<R(S)>>, <<R(S), R(S)>>>>)
Query == /\ stage \in 7..12 /\ stage' = stage + 1
         /\ \E sv \in {R(1..4)} : \E s \in {Lst(1..3, stage)}, v \in {Lst(1..3, stage)}, f \in {Lst({qs[i].f : i \in DOMAIN qs} \cup {"T"}, stage)},
               c \in {Lst({qs[i].cls : i \in DOMAIN qs} \cup {"VolumeQuantity", "SurfaceQuantity", "SurfaceFlux", "TotalVolume", "AverageSurface", "DerivedQuantity"}, stage)}, sc \in {R(BOOLEAN)} :
               ks' = Append(ks, [surfaces |-> IF sv \in {1, 4} THEN s ELSE <<>>, volumes |-> IF sv \in {2, 4} THEN v ELSE <<>>,
                                 fields |-> IF R({1, 2}) = 1 THEN f ELSE <<>>, inst |-> IF R({1, 2}) = 1 THEN c ELSE <<>>, scalar |-> sc])
         /\ UNCHANGED <<m, qs>>
Emit == stage = 13 /\ stage' = 14 /\ PrintT("GEN " \o ToJson([m |-> m, qs |-> qs, ks |-> ks])) /\ UNCHANGED <<m, qs, ks>>
Spec == Init /\ [][Mesh \/ Quants \/ Query \/ Emit]_vars
=============================================================================
