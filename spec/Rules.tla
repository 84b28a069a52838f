------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Which configurations Simulation.initialise() refuses, and how.          *)
(* A configuration c has                                                   *)
(*   steady, dt, final : is the run steady; are dt / final_time given      *)
(*   temp  "none" | "given" | "heatT" | "heatS";  tic: initial temperature *)
(*   dim 1..3, type    : mesh                                              *)
(*   chem              : conservation of chemical potential                *)
(*   mats  sequence of [id, S, k, cp, rho, Q, b, law]: ids and which       *)
(*         properties are given                                            *)
(*   traps sequence of sequences of materials (0: no such material)        *)
(*   bcs   sequence of [kind, surf, f];  f: 0 mobile, n trap, 100 T,       *)
(*         -1 something else                                               *)
(*   srcs  fields of the sources;  ads  surfaces of AdsorbedHydrogen       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Rn(s) == {s[i] : i \in DOMAIN s}
If(c, e) == IF c THEN {e} ELSE {}
Heat(c) == c.temp \in {"heatT", "heatS"}
Exclusive == {"dc", "imp", "sk"}        \* conditions that own their surface
Same(x) == Cardinality(x) = 1
Ids(c) == [m \in DOMAIN c.mats |-> Rn(c.mats[m].id)]

Errs(c) ==
    If(c.steady /\ c.dt, "AttributeError")
    \cup If(~c.steady /\ ~c.dt, "AttributeError")
    \cup If(~c.steady /\ ~c.final, "AttributeError")
    \cup If(c.temp = "none", "AttributeError")
    \cup If(c.temp = "heatT" /\ ~c.tic, "AttributeError")
    \* fields
    \cup If(~Heat(c) /\ (100 \in Rn(c.srcs)), "TypeError")
    \cup If(~Heat(c) /\ (\E b \in Rn(c.bcs) : b.f = 100), "TypeError")
    \cup If(\E b \in Rn(c.bcs) : b.f = -1 \/ (b.f > Len(c.traps) /\ b.f # 100), "ValueError")
    \* a surface with an exclusive condition has no other condition on that field
    \cup If(\E i, j \in DOMAIN c.bcs : /\ i # j /\ c.bcs[i].kind \in Exclusive /\ c.bcs[i].f = c.bcs[j].f
                                       /\ Rn(c.bcs[i].surf) \cap Rn(c.bcs[j].surf) # {}, "ValueError")
    \cup If(c.dim # 1 /\ \E b \in Rn(c.bcs) : b.kind = "sk", "ValueError")
    \cup If(\E s \in Rn(c.ads) : ~\E b \in Rn(c.bcs) : b.kind = "sk" /\ s \in Rn(b.surf), "AttributeError")
    \* geometry
    \cup If(c.type = "spherical" /\ c.dim # 1, "AttributeError")
    \cup If(c.type = "cylindrical" /\ c.dim = 3, "AttributeError")
    \* materials
    \cup If(\E p \in {"S", "k", "cp", "rho", "Q", "b"} : ~Same({m[p] : m \in Rn(c.mats)}), "ValueError")
    \cup If(c.dim = 1 /\ Len(c.mats) > 1 /\ \E m \in Rn(c.mats) : ~m.b, "ValueError")
    \cup If(\E m, n \in DOMAIN c.mats : m # n /\ Ids(c)[m] \cap Ids(c)[n] # {}, "ValueError")
    \cup If(Heat(c) /\ \E m \in Rn(c.mats) : ~m.k, "ValueError")
    \cup If(c.temp = "heatT" /\ \E m \in Rn(c.mats) : ~m.cp \/ ~m.rho, "ValueError")
    \* traps
    \cup If(\E t \in Rn(c.traps) : 0 \in Rn(t), "ValueError")
    \cup If(\E t \in Rn(c.traps) : Cardinality(Rn(t)) # Len(t), "ValueError")
    \cup If(c.chem /\ \E t \in Rn(c.traps) : \E m \in Rn(t) : m # 0 /\ c.mats[m].law = "henry", "NotImplementedError")
=============================================================================
