----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Attributes that check what they are given.  An object of a class has    *)
(* attributes, each of a type; a value is [k, a, b] (what it is, and       *)
(* numbers that go with it).  A value of the wrong kind is refused with a  *)
(* TypeError, one that makes no sense with a ValueError, when the object   *)
(* is built or the attribute assigned; the object then keeps what it had.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
V(k) == [k |-> k, a |-> 0, b |-> 0]
VA(k, a) == [k |-> k, a |-> a, b |-> 0]
VP(a, b) == [k |-> "pair", a |-> a, b |-> b]
\* attribute: its type, limits of ranges (quarters of pi), and whether it can be assigned later
At(n, t) == [n |-> n, t |-> t, lo |-> 0, hi |-> 0, set |-> TRUE]
Rg(n, lo, hi) == [n |-> n, t |-> "range", lo |-> lo, hi |-> hi, set |-> TRUE]
Ctor(n, t) == [n |-> n, t |-> t, lo |-> 0, hi |-> 0, set |-> FALSE]
Vol == At("volume", "id")
Surf == At("surface", "id")
Attrs(c) ==
    CASE c = "TXTExport" -> <<At("filename", "name")>>
      [] c = "DerivedQuantities" -> <<At("filename", "name")>>
      [] c = "XDMFExport" -> <<At("filename", "named"), At("folder", "folder"), At("mode", "mode"), Ctor("checkpoint", "flag")>>
      [] c = "TrapDensityXDMF" -> <<At("filename", "name"), At("mode", "mode"), Ctor("checkpoint", "flag")>>
      [] c \in {"TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume", "AverageVolumeCylindrical", "AverageVolumeSpherical"} -> <<Vol>>
      [] c \in {"TotalSurface", "AverageSurface", "MaximumSurface", "MinimumSurface", "AverageSurfaceCylindrical", "AverageSurfaceSpherical",
                "SurfaceFlux", "HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"} -> <<Surf>>
      [] c = "TotalVolumeCylindrical" -> <<Vol, Rg("azimuth_range", 0, 8)>>
      [] c = "TotalVolumeSpherical" -> <<Vol, Rg("azimuth_range", 0, 8), Rg("polar_range", 0, 4)>>
      [] c = "TotalSurfaceCylindrical" -> <<Surf, Rg("azimuth_range", 0, 8)>>
      [] c = "TotalSurfaceSpherical" -> <<Surf, Rg("azimuth_range", 0, 8), Rg("polar_range", 0, 4)>>
      [] c = "SurfaceFluxCylindrical" -> <<Surf, Rg("azimuth_range", 0, 8)>>
      [] c = "SurfaceFluxSpherical" -> <<Surf, Rg("azimuth_range", 0, 4), Rg("polar_range", -4, 4)>>
      [] c = "RadioactiveDecay" -> <<At("decay_constant", "rate")>>
      [] c = "Material" -> <<Ctor("solubility_law", "law"), Ctor("S", "solub")>>
      [] c = "InitialCondition" -> <<Ctor("start", "start")>>
      [] c \in {"Trap"} -> <<At("materials", "trapmats")>>
      [] c \in {"HeatTransferProblem", "ExtrinsicTrap", "NeutronInducedTrap", "HTransportProblem"} -> <<At("newton_solver", "solver")>>
      [] c = "Simulation" -> <<At("T", "temp"), At("dt", "dt")>>
Classes == {"TXTExport", "DerivedQuantities", "XDMFExport", "TrapDensityXDMF", "TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume",
            "AverageVolumeCylindrical", "AverageVolumeSpherical", "TotalSurface", "AverageSurface", "MaximumSurface", "MinimumSurface",
            "AverageSurfaceCylindrical", "AverageSurfaceSpherical", "SurfaceFlux", "HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen",
            "TotalVolumeCylindrical", "TotalVolumeSpherical", "TotalSurfaceCylindrical", "TotalSurfaceSpherical", "SurfaceFluxCylindrical",
            "SurfaceFluxSpherical", "RadioactiveDecay", "Material", "InitialCondition", "Trap", "HeatTransferProblem", "ExtrinsicTrap",
            "NeutronInducedTrap", "HTransportProblem", "Simulation"}

\* ---- values of a type: <<right ones, wrong ones>>
Values(at) ==
    CASE at.t \in {"name", "named"} -> <<{V("good"), V("sub"), V("second")} \cup (IF at.n = "filename" /\ at.t = "named" THEN {V("none")} ELSE {}),
                                        {V("noext"), V("other"), V("inside"), V("number"), V("list")}>>
      [] at.t = "folder" -> <<{V("none"), V("good"), V("second")}, {V("number"), V("list")}>>
      [] at.t = "id" -> <<{VA("int", 1), VA("int", 2), VA("int", 0), VA("int", 12)}, {V("bool"), V("str"), V("float"), V("none"), V("list")}>>
      [] at.t = "range" -> <<{VP(a, b) : a \in at.lo..(at.hi - 1), b \in (at.lo + 1)..at.hi} , {VP(at.lo - 1, at.hi), VP(at.lo, at.hi + 1), VP(at.lo - 3, at.hi + 2)}>>
      [] at.t = "mode" -> <<{VA("int", 1), VA("int", 2), VA("int", 10), V("last")}, {VA("int", 0), VA("int", -1), V("str"), V("float"), V("none"), V("list")}>>
      [] at.t = "flag" -> <<{VA("bool", 0), VA("bool", 1)}, {VA("int", 0), VA("int", 1), V("str"), V("none")}>>
      [] at.t = "rate" -> <<{VA("int", 2), VA("float", 1), VA("float", 3)}, {VA("int", 0), VA("float", -1), VA("int", -2), V("str"), V("none"), V("list")}>>
      [] at.t = "law" -> <<{V("henry"), V("sievert")}, {V("str"), V("none"), V("number")}>>
      [] at.t = "solub" -> <<{VP(0, 0), VP(1, 1)}, {VP(0, 1), VP(1, 0)}>>
      [] at.t = "start" -> <<{[k |-> "num", a |-> 0, b |-> -1], [k |-> "sym", a |-> 0, b |-> -1]} \cup {[k |-> "file", a |-> 1, b |-> b] : b \in {0, 1, 3}},
                             {[k |-> "file", a |-> 0, b |-> 0], [k |-> "file", a |-> 1, b |-> -1], [k |-> "file", a |-> 0, b |-> -1]}>>
      [] at.t = "trapmats" -> <<{V("s"), V("m"), V("ls"), V("lss"), V("lmm"), V("lsm")}, {V("none"), V("number"), V("lsn"), V("lm-"), V("tuple")}>>
      [] at.t = "solver" -> <<{V("none"), VA("solver", 1), VA("solver", 2)}, {V("str"), V("number"), V("list")}>>
      [] at.t = "temp" -> <<{V("none"), VA("int", 300), VA("float", 400), VA("sym", 5), VA("object", 600), VA("heat", 0)}, {V("str"), V("list"), V("stepsize")}>>
      [] at.t = "dt" -> <<{V("none"), VA("int", 3), VA("float", 4), VA("object", 6)}, {V("str"), V("list"), V("temperature")}>>
Right(at, v) == v \in Values(at)[1]
\* the error a wrong value meets
Err(at, v) ==
    CASE at.t \in {"name", "named"} -> IF v.k \in {"number", "list"} THEN "TypeError" ELSE "ValueError"
      [] at.t \in {"mode", "law", "solub", "start", "range"} -> "ValueError"
      [] at.t = "rate" -> IF v.k \in {"int", "float"} THEN "ValueError" ELSE "TypeError"
      [] OTHER -> "TypeError"
\* what the attribute then holds
Holds(at, v) ==
    CASE at.t = "temp" -> IF v.k \in {"int", "float", "object"} THEN VA("Temperature", v.a) ELSE v
      [] at.t = "dt" -> IF v.k = "none" THEN v ELSE VA("Stepsize", v.a)
      [] at.t = "trapmats" -> IF v.k = "s" THEN V("ls") ELSE IF v.k = "m" THEN V("lm") ELSE v
      [] at.t = "named" -> IF v.k = "none" THEN V("default") ELSE v
      [] OTHER -> v

\* ---- behaviour: obj is <<>> (no object yet) or what each attribute holds
Idx(c, n) == CHOOSE i \in DOMAIN Attrs(c) : Attrs(c)[i].n = n
Outcomes(c, obj, op) ==
    IF op.op = "new"
    THEN LET A == Attrs(c)
             bad == {i \in DOMAIN A : ~Right(A[i], op.vs[i])}
         IN  IF bad = {} THEN {[res |-> "ok", obj |-> [i \in DOMAIN A |-> Holds(A[i], op.vs[i])]]}
             ELSE {[res |-> Err(A[i], op.vs[i]), obj |-> obj] : i \in bad}
    ELSE LET at == Attrs(c)[op.i] v == op.vs[1] IN
         IF Right(at, v) THEN {[res |-> "ok", obj |-> [obj EXCEPT ![op.i] = Holds(at, v)]]}
         ELSE {[res |-> Err(at, v), obj |-> obj]}
Sound(c, obj) == obj = <<>> \/ \A i \in DOMAIN obj : \E v \in Values(Attrs(c)[i])[1] : obj[i] = Holds(Attrs(c)[i], v)
=============================================================================
