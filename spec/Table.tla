------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The table of derived quantities: one column per quantity, headed by a   *)
(* title that says what it is and in what unit; filter() finds quantities  *)
(* by what they measure.                                                   *)
(*   q == [cls, f, id, x]: class, field as the user spelled it, volume or  *)
(*   surface, point (quarters of the domain) for PointValue                *)
(*   m == [dim, geo, units]: mesh dimension and type, show_units           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(s) == {s[i] : i \in DOMAIN s}
Suffix(b) == {b, b \o "Cylindrical", b \o "Spherical"}
VolClasses == Suffix("TotalVolume") \cup Suffix("AverageVolume") \cup {"MaximumVolume", "MinimumVolume"}
FluxClasses == Suffix("SurfaceFlux") \cup {"HydrogenFlux", "ThermalFlux"}
SurfClasses == Suffix("TotalSurface") \cup {"AverageSurface", "AverageSurfaceCylindrical"} \cup {"MaximumSurface", "MinimumSurface"}
               \cup FluxClasses \cup {"AdsorbedHydrogen"}
\* q is an instance of class c
IsA(cls, c) == \/ c = "DerivedQuantity" \/ cls = c
               \/ c = "VolumeQuantity" /\ cls \in VolClasses
               \/ c = "SurfaceQuantity" /\ cls \in SurfClasses
               \/ c = "SurfaceFlux" /\ cls \in FluxClasses
               \/ c \in {"TotalVolume", "AverageVolume", "TotalSurface", "AverageSurface"} /\ cls \in Suffix(c)
-----------------------------------------------------------------------------
(* which meshes a quantity is meant for *)
Cyl == {b \o "Cylindrical" : b \in {"TotalVolume", "AverageVolume", "TotalSurface", "AverageSurface", "SurfaceFlux"}}
Sph == {b \o "Spherical" : b \in {"TotalVolume", "AverageVolume", "TotalSurface", "SurfaceFlux"}}
Meant(cls) == CASE cls \in Cyl -> {"cylindrical"} [] cls \in Sph -> {"spherical"}
                [] cls = "AverageSurface" -> {"cartesian", "spherical"}
                [] cls \in {"TotalVolume", "AverageVolume", "TotalSurface", "SurfaceFlux", "HydrogenFlux", "ThermalFlux"} -> {"cartesian"}
                [] OTHER -> {"cartesian", "cylindrical", "spherical"}
-----------------------------------------------------------------------------
(* units: the field (H m-3 or K) times the measure it is integrated over;    *)
(* totals of concentrations over surfaces are documented in H m-2, H m-1, H  *)
Pow(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN " m" ELSE " m" \o ToString(n)
\* dimension of the measure: lengths a quantity's integral multiplies with
VolDim(cls, dim) == CASE cls = "TotalVolume" -> dim [] cls = "TotalVolumeCylindrical" -> dim + 1 [] OTHER -> 3
SurfDim(cls, dim) == CASE cls \in {"TotalSurface", "SurfaceFlux", "HydrogenFlux", "ThermalFlux"} -> dim - 1
                       [] cls \in {"TotalSurfaceCylindrical", "SurfaceFluxCylindrical"} -> dim [] OTHER -> 2
Unit(q, m) ==
    CASE q.cls \in Suffix("TotalVolume") -> IF q.f = "T" THEN "K" \o Pow(VolDim(q.cls, m.dim)) ELSE "H" \o Pow(VolDim(q.cls, m.dim) - 3)
      [] q.cls \in Suffix("TotalSurface") -> IF q.f = "T" THEN "K" \o Pow(SurfDim(q.cls, m.dim)) ELSE "H" \o Pow(SurfDim(q.cls, m.dim) - 2)
      [] q.cls \in FluxClasses -> (IF q.f = "T" THEN "W" ELSE "H") \o Pow(SurfDim(q.cls, m.dim) - 2) \o (IF q.f = "T" THEN "" ELSE " s-1")
      [] q.cls = "AdsorbedHydrogen" -> "H m-2"
      [] OTHER -> IF q.f = "T" THEN "K" ELSE "H m-3"
Quarter == <<"0.25", "0.5", "0.75">>
PointName(q, m) == "[" \o Quarter[q.x] \o (IF m.dim > 1 THEN ", " \o Quarter[q.id] ELSE "") \o (IF m.dim > 2 THEN ", 0.5" ELSE "") \o "]"
Name(q, m) ==
    CASE q.cls \in Suffix("TotalVolume") -> "Total " \o q.f \o " volume " \o ToString(q.id)
      [] q.cls \in Suffix("AverageVolume") -> "Average " \o q.f \o " volume " \o ToString(q.id)
      [] q.cls = "MaximumVolume" -> "Maximum " \o q.f \o " volume " \o ToString(q.id)
      [] q.cls = "MinimumVolume" -> "Minimum " \o q.f \o " volume " \o ToString(q.id)
      [] q.cls \in Suffix("TotalSurface") -> "Total " \o q.f \o " surface " \o ToString(q.id)
      [] q.cls \in {"AverageSurface", "AverageSurfaceCylindrical"} -> "Average " \o q.f \o " surface " \o ToString(q.id)
      [] q.cls = "MaximumSurface" -> "Maximum " \o q.f \o " surface " \o ToString(q.id)
      [] q.cls = "MinimumSurface" -> "Minimum " \o q.f \o " surface " \o ToString(q.id)
      [] q.cls \in FluxClasses -> (IF q.f = "T" THEN "Heat" ELSE q.f) \o " flux surface " \o ToString(q.id)
      [] q.cls = "AdsorbedHydrogen" -> "Adsorbed H on surface " \o ToString(q.id)
      [] q.cls = "PointValue" -> q.f \o " value at " \o PointName(q, m)
Title(q, m) == Name(q, m) \o (IF m.units THEN " (" \o Unit(q, m) \o ")" ELSE "")
-----------------------------------------------------------------------------
(* filter(): k == [surfaces, volumes, fields, inst], each <<>> when not given *)
Match(q, k) ==
    /\ k.surfaces # <<>> => q.cls \in SurfClasses /\ q.id \in Ran(k.surfaces)
    /\ k.volumes # <<>> => q.cls \in VolClasses /\ q.id \in Ran(k.volumes)
    /\ k.fields # <<>> => q.f \in Ran(k.fields)
    /\ k.inst # <<>> => \E c \in Ran(k.inst) : IsA(q.cls, c)
Found(qs, k) == SelectSeq([i \in DOMAIN qs |-> i], LAMBDA i : Match(qs[i], k))
=============================================================================
