--------------------------- MODULE TransportGen -----------------------------
(* Configurations of Transport, chosen one aspect at a time (tlc -simulate). *)
(* Families concentrate on one part of the physics, "mix" combines them all. *)
(* Numbers are thousandths.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Families
CONSTANT WithDQ     \* request derived quantities
VARIABLES fam, stage, cfg, aux
gvars == <<fam, stage, cfg, aux>>

Mat(ids, D, jD) == [ids |-> ids, D |-> D, jD |-> jD, S |-> 1000, jS |-> 0, law |-> "sievert",
                    k |-> <<1000, 0>>, cp |-> <<1000, 0>>, rho |-> <<1000, 0>>, Q |-> <<0, 0>>]
Base == [geo |-> "cartesian", x0 |-> 0, h |-> <<>>, cv |-> <<>>, mats |-> <<>>,
         temp |-> [kind |-> "given", a |-> <<1000, 0, 0>>], traps |-> <<>>, el |-> "CG", ics |-> <<>>,
         bcs |-> <<>>, srcs |-> <<>>, steady |-> FALSE, chem |-> FALSE, soret |-> FALSE, den |-> 3000,
         final |-> 2000, dqs |-> <<>>, ids |-> 0]
GInit == /\ fam \in Families /\ stage = 0 /\ cfg = Base
         /\ aux = [dt |-> 500, ratio |-> 0, fs |-> "int", jac |-> TRUE, ref |-> "obj", order |-> 0, ndt |-> "const", vols |-> "list", txt |-> <<>>, ex |-> 0, tsc |-> 0, how |-> ""]

\* ---- meshes: <<x0, h, cv, ids per material>>
OneMat == {<<0, <<1000, 1000, 1000>>, <<1, 1, 1>>, <<<<1>>>>>>, <<0, <<500, 1000, 500, 1000>>, <<3, 3, 3, 3>>, <<<<3>>>>>>,
           <<0, <<2000, 500>>, <<1, 1>>, <<<<1>>>>>>}
TwoMat == {<<0, <<1000, 500, 500, 1000>>, <<1, 1, 2, 2>>, <<<<1>>, <<2>>>>>>,
           <<0, <<1000, 1000, 500>>, <<7, 4, 4>>, <<<<7>>, <<4>>>>>>,
           <<0, <<500, 1000, 500, 1000>>, <<1, 2, 1, 2>>, <<<<1>>, <<2>>>>>>,
           <<0, <<1000, 500, 1000>>, <<1, 2, 3>>, <<<<1, 3>>, <<2>>>>>>,
           <<0, <<1000, 500, 500, 1000>>, <<2, 2, 5, 1>>, <<<<5>>, <<1>>, <<2>>>>>>}
Radial == {<<2000, <<1000, 500, 500>>, <<1, 1, 1>>, <<<<1>>>>>>, <<1000, <<500, 500, 500, 500>>, <<1, 1, 1, 1>>, <<<<1>>>>>>,
           <<3000, <<1000, 1000, 500>>, <<2, 2, 2>>, <<<<2>>>>>>}
Offset == {<<1000, <<1000, 500, 500>>, <<1, 1, 1>>, <<<<1>>>>>>}
MeshOpts == CASE fam \in {"coord"} -> Radial
              [] fam = "many" -> {<<0, <<2000, 500>>, <<1, 1>>, <<<<1>>>>>>}
              [] fam \in {"chem"} -> TwoMat \cup {<<0, <<1000, 1000, 1000>>, <<1, 1, 1>>, <<<<1>>>>>>}
              [] fam \in {"surf"} -> OneMat \cup {<<0, <<1000, 500, 500, 1000>>, <<1, 1, 2, 2>>, <<<<1>>, <<2>>>>>>}
              [] fam \in {"flux", "dirichlet"} -> OneMat \cup Offset \cup {<<0, <<1000, 500, 500, 1000>>, <<1, 1, 2, 2>>, <<<<1>>, <<2>>>>>>}
              [] OTHER -> OneMat \cup TwoMat
Ds == {<<1000, 0>>, <<500, 1000>>, <<2000, 1000>>, <<250, 500>>}

\* ---- temperature
TGiven == {<<1000, 0, 0>>, <<1000, 0, 0>>, <<2000, 0, 0>>, <<1000, 0, 500>>, <<800, 100, 0>>, <<1000, 50, 250>>}
TempOpts == CASE fam = "temp" -> {[kind |-> "given", a |-> a] : a \in TGiven}
                                \cup {[kind |-> k, a |-> a] : k \in {"transient", "steady"}, a \in TGiven \ {<<2000, 0, 0>>}}
              [] fam = "mix" -> {[kind |-> k, a |-> a] : k \in {"given", "transient"}, a \in {<<1000, 0, 0>>, <<800, 100, 0>>, <<1000, 0, 500>>}}
              [] fam = "chem" -> {[kind |-> k, a |-> a] : k \in {"given", "given", "transient", "steady"}, a \in {<<1000, 0, 0>>, <<1000, 0, 500>>, <<1000, 50, 250>>, <<800, 100, 0>>}} \cup {[kind |-> "transient", a |-> <<900, 250, 0>>]}
              [] fam = "coord" -> {[kind |-> k, a |-> a] : k \in {"given", "given", "transient", "steady"}, a \in {<<1000, 0, 0>>, <<1000, 50, 0>>, <<1000, 0, 250>>, <<1000, 100, 250>>}}
              [] fam = "file" -> {[kind |-> "file", a |-> <<1000, 100, 0>>]}
              [] OTHER -> {[kind |-> "given", a |-> a] : a \in TGiven}
KOpts == {<<1000, 0>>, <<500, 0>>, <<500, 250>>, <<2000, 0>>}
CpOpts == {<<1000, 0>>, <<500, 250>>, <<2000, 0>>}

\* RandomElement (seeded by tlc -seed) keeps simulation linear: the sets below
\* are never enumerated
R(X) == RandomElement(X)
\* ---- traps
NOpts == {<<1000, 0, 0>>, <<500, 0, 0>>, <<500, 250, 0>>, <<500, 0, 250>>}
Trap(ms, k, p, n) == [kind |-> "trap", mats |-> ms, k |-> [i \in DOMAIN k |-> k[i][1]], jk |-> [i \in DOMAIN k |-> k[i][2]],
                      p |-> [i \in DOMAIN p |-> p[i][1]], jp |-> [i \in DOMAIN p |-> p[i][2]], n |-> n, d |-> 0]
KK == {<<1000, 0>>, <<2000, 1000>>, <<500, 500>>}
PP == {<<500, 0>>, <<1000, 1000>>, <<250, 500>>}
NM == Len(cfg.mats)
TrapMats == {<<1>>} \cup (IF NM >= 2 THEN {<<2>>, <<1, 2>>, <<2, 1>>} ELSE {}) \cup (IF NM >= 3 THEN {<<3, 1>>, <<1, 2, 3>>} ELSE {})
RSimple == Trap(R(TrapMats), <<R(KK)>>, <<R(PP)>>, <<R(NOpts)>>)
RGrouped == IF NM < 2 THEN RSimple ELSE Trap(R({<<1, 2>>, <<2, 1>>}), <<R(KK), R(KK)>>, <<R(PP), R(PP)>>, <<R(NOpts), R(NOpts)>>)
Ext(ms, d) == [kind |-> "extrinsic", mats |-> ms, k |-> <<1000>>, jk |-> <<0>>, p |-> <<500>>, jp |-> <<500>>, n |-> <<<<0, 0, 0>>>>, d |-> d]
Neu(ms, d) == [kind |-> "neutron", mats |-> ms, k |-> <<1000>>, jk |-> <<500>>, p |-> <<500>>, jp |-> <<0>>, n |-> <<<<0, 0, 0>>>>, d |-> d]
ExtMats == {<<1>>} \cup (IF NM >= 2 THEN {<<2>>, <<1, 2>>} ELSE {})
RExt == Ext(R(ExtMats), [phi |-> R({<<1000, 0, 0>>, <<500, 0, 500>>, <<1000, 0, -250>>}), na |-> R({<<2000, 0, 0>>, <<3000, 0, 0>>}),
                    nb |-> R({<<1000, 0, 0>>, <<4000, 0, 0>>}), ea |-> R({500, 1000}), eb |-> R({250, 750}),
                    fa |-> R({<<1000, 0, 0>>, <<500, 250, 0>>, <<0, 0, 500>>}), fb |-> R({<<500, 0, 0>>, <<1000, -250, 0>>})])
RNeu == Neu(R(ExtMats), [phi |-> R({<<1000, 0, 0>>, <<500, 0, 500>>, <<500, 250, 0>>}), K |-> R({500, 1000}), nmax |-> R({2000, 4000}),
                    A |-> R({250, 500}), jA |-> R({0, 1000})])

\* enough traps for a field with a name of two digits
RMany(z) == LET f == R(0..6) IN
            TLCEval([i \in 1..11 |-> Trap(<<1>>, <<R(KK)>>, <<<<250 + 50 * ((i * (f + 2)) % 11), R({0, 500})>>>>, <<<<300 + 100 * i, 0, 0>>>>)])

\* ---- boundary conditions
Bc(kind, surf, f) == [kind |-> kind, surf |-> surf, f |-> f, a |-> <<0, 0, 0>>, k |-> 0, j |-> 0, kt |-> 0, jt |-> 0, order |-> 1, rp |-> <<0, 0, 0>>,
                      kr |-> <<0, 0>>, kd |-> <<0, 0>>, pr |-> <<0, 0, 0>>, lam |-> 0, nsurf |-> 1000, nis |-> 1000,
                      ksb |-> <<0, 0>>, kbs |-> <<0, 0>>, ini |-> 0, cs |-> <<>>, fn |-> 0]
Lins == {<<1000, 0, 0>>, <<500, 0, 500>>, <<1000, 250, 250>>}
KJ == {<<500, 0>>, <<1000, 1000>>, <<250, 500>>}
WithK(b, k) == [b EXCEPT !.k = k[1], !.j = k[2]]
RFlux(sf) == LET kd == R({"flux", "recomb", "recomb", "dissoc", "mass", "customf"}) IN
             WithK([Bc(kd, sf, 0) EXCEPT !.a = R(Lins \cup (IF kd = "flux" THEN {<<-250, 0, 0>>} ELSE {})), !.order = R({1, 2, 3}),
                    !.kt = IF fam = "chem" THEN 0 ELSE R({0, 250, 500}), !.jt = IF fam = "chem" \/ kd \in {"mass", "customf"} THEN 0 ELSE R({0, 0, 250})], R(KJ))
RDir(sf, f, kinds) == LET kd == R(kinds) IN
             WithK([Bc(kd, sf, f) EXCEPT !.a = IF kd = "imp" THEN R({<<1000, 0, 0>>, <<500, 0, 250>>}) ELSE R(Lins \cup {<<0, 0, 0>>}),
                      !.rp = R({<<500, 0, 0>>, <<500, 0, 125>>}), !.kr = R({<<0, 0>>, <<500, 0>>, <<2000, 1000>>}),
                      !.kd = R({<<0, 0>>, <<500, 500>>}), !.pr = R({<<1000, 0, 500>>, <<500, 0, 0>>})],
                   IF kd = "imp" THEN R({<<1000, 0>>, <<2000, 1000>>}) ELSE R(KJ))
HK == {"dc", "customd", "sieverts", "henrys", "imp"}
RDirM(sf) == RDir(sf, 0, HK)
RDirT(sf, f) == RDir(sf, f, {"dc", "customd"})
DcB(sf, f, a) == [Bc("dc", sf, f) EXCEPT !.a = a]
RHeat(sf, kinds) == LET kd == R(kinds) IN
    CASE kd = "dc" -> DcB(sf, 100, R({<<1000, 0, 0>>, <<1000, 0, 250>>, <<900, 0, 125>>}))
      [] kd = "flux" -> [Bc("flux", sf, 100) EXCEPT !.a = R({<<125, 0, 0>>, <<100, 0, 50>>})]
      [] kd = "conv" -> [Bc("conv", sf, 100) EXCEPT !.a = R({<<1000, 0, 0>>, <<1125, 0, 125>>}), !.k = R({500, 2000}), !.kt = R({0, 500})]
      [] OTHER -> [Bc("customt", sf, 100) EXCEPT !.a = R({<<250, 0, 125>>, <<250, 0, 0>>}), !.k = 250]
HeatKinds == {"dc", "flux", "conv", "customt"}
RSK(sf, cs) == [Bc("sk", sf, 0) EXCEPT !.lam = R({0, 250, 500}), !.nsurf = R({2000, 4000}), !.nis = R({4000, 8000}),
                 !.ksb = R({<<500, 0>>, <<1000, 1000>>}), !.kbs = R({<<1000, 0>>, <<500, 500>>}),
                 !.a = R({<<500, 0, 0>>, <<250, 0, 250>>}), !.ini = R({0, 500}), !.cs = cs, !.fn = R({0, 1})]
NN == Len(cfg.traps)
HeatEq == cfg.temp.kind \in {"transient", "steady"}
\* boundary conditions of the heat equation
RHeatPair == IF ~HeatEq THEN <<>>
             ELSE LET z == R(IF cfg.temp.kind = "transient" THEN {0, 1, 2, 3} ELSE {1, 2, 3}) IN
                  CASE z = 0 -> <<>>
                    [] z = 1 -> IF cfg.temp.kind = "steady" THEN <<RHeat(<<1, 2>>, {"dc", "conv"})>> ELSE <<RHeat(<<1, 2>>, HeatKinds)>>
                    [] z = 2 -> <<RHeat(<<1>>, {"dc", "conv"}), RHeat(<<2>>, HeatKinds)>>
                    [] OTHER -> <<RHeat(<<2>>, {"dc", "conv"}), RHeat(<<1>>, HeatKinds)>>
RBcs == CASE fam = "flux" -> (LET z == R(1..4) IN
                CASE z = 1 -> <<RFlux(<<1, 2>>)>> [] z = 2 -> <<RFlux(<<1>>), RFlux(<<2>>)>> [] z = 3 -> <<RFlux(<<2>>), RFlux(<<2>>)>>
                  [] OTHER -> <<RFlux(<<2, 1>>), RFlux(<<1>>)>>)
          [] fam = "dirichlet" -> (LET z == R(1..5) IN
                CASE z = 1 -> <<RDirM(<<1, 2>>)>> [] z = 2 -> <<RDirM(<<1>>), RDirM(<<2>>)>> [] z = 3 -> <<RDirM(<<2>>)>>
                  [] z = 4 -> IF NN = 0 \/ cfg.el = "DG" THEN <<RDirM(<<2>>), RFlux(<<1>>)>> ELSE <<RDirM(<<1>>), RDirT(<<2>>, NN)>>
                  [] OTHER -> IF NN = 0 \/ cfg.el = "DG" THEN <<RDirM(<<1>>), RFlux(<<2>>)>> ELSE <<RDirM(<<1, 2>>), RDirT(<<1, 2>>, 1)>>)
          [] fam = "surf" -> (LET z == R(1..5) IN
                CASE z = 1 -> <<RSK(<<1>>, <<1>>)>> [] z = 2 -> <<RSK(<<1, 2>>, <<1, 2>>)>> [] z = 3 -> <<RSK(<<2, 1>>, <<1, 2>>)>>
                  [] z = 4 -> <<RSK(<<1>>, <<1>>), RSK(<<2>>, <<2>>)>> [] OTHER -> <<RSK(<<2>>, <<1>>), RDirM(<<1>>)>>)
          [] fam = "temp" -> RHeatPair \o (IF cfg.steady THEN <<DcB(<<1>>, 0, <<1000, 0, 0>>)>> ELSE R({<<DcB(<<1>>, 0, <<1000, 0, 0>>)>>, <<>>}))
          [] fam = "coord" -> (LET z == R(1..3) IN
                CASE z = 1 -> <<DcB(<<1>>, 0, R(Lins)), DcB(<<2>>, 0, R({<<0, 0, 0>>, <<500, 0, 500>>}))>>
                  [] z = 2 -> <<DcB(<<1>>, 0, R(Lins)), RFlux(<<2>>)>> [] OTHER -> <<DcB(<<2>>, 0, R(Lins)), RFlux(<<1>>)>>) \o RHeatPair
          [] fam = "chem" -> (LET z == R(1..4) IN
                CASE z = 1 -> <<RDir(<<1, 2>>, 0, HK)>> [] z = 2 -> <<RDir(<<1>>, 0, HK), RFlux(<<2>>)>>
                  [] z = 3 -> <<RDir(<<2>>, 0, HK), RFlux(<<1>>)>>
                  [] OTHER -> <<RSK(<<1>>, <<1>>), DcB(<<2>>, 0, <<500, 0, 500>>)>>) \o RHeatPair
          [] fam = "mix" -> (LET z == R(1..3) IN
                CASE z = 1 -> <<RFlux(<<1, 2>>)>> [] z = 2 -> <<RFlux(<<1>>), RFlux(<<2>>)>> [] OTHER -> <<RFlux(<<1>>), RSK(<<2>>, <<1>>)>>) \o RHeatPair
          [] OTHER -> R({<<DcB(<<1>>, 0, <<1000, 0, 0>>)>>, <<DcB(<<1, 2>>, 0, <<500, 0, 500>>)>>} \cup (IF cfg.steady THEN {} ELSE {<<>>}))

\* ---- sources
Vols == UNION {{cfg.mats[m].ids[i] : i \in DOMAIN cfg.mats[m].ids} : m \in DOMAIN cfg.mats}
Vseqs == {<<v>> : v \in Vols} \cup {p \in Vols \X Vols : p[1] # p[2]}
SLins == {<<1000, 0, 0>>, <<500, 250, 0>>, <<500, 0, 500>>, <<-250, 0, 0>>}
RSrc(f) == [kind |-> "src", f |-> f, vols |-> R(Vseqs), a |-> R(SLins)]
RDecay(f) == [kind |-> "decay", f |-> f, vols |-> R(Vseqs), a |-> <<R({250, 1000}), 0, 0>>]
\* implantation: a Gaussian of width w around the depth mu
RGauss(z) == [kind |-> "gauss", f |-> 0, vols |-> R(Vseqs), a |-> R({<<1000, 0, 0>>, <<2000, 0, 1000>>, <<1000, 500, 0>>}),
              mu |-> R({<<0, 0, 0>>, <<1000, 0, 0>>, <<500, 0, 250>>}), w |-> R({750, 1500})]
RHeatSrc == [kind |-> "src", f |-> 100, vols |-> R(Vseqs), a |-> R({<<125, 0, 0>>, <<125, 0, 60>>, <<60, 60, 0>>})]
RHSrcs == LET z == R(1..11) IN
          CASE z = 9 -> <<RGauss(1)>> [] z = 10 -> <<RGauss(1), RSrc(NN)>> [] z = 11 -> <<RDecay(-1), RGauss(1), RGauss(2)>>
            [] z = 1 -> <<RSrc(0)>> [] z = 2 -> <<RSrc(0), RSrc(0)>> [] z = 3 -> <<RDecay(-1)>>
            [] z = 4 -> <<RSrc(NN), RDecay(-1)>> [] z = 5 -> <<RDecay(NN), RSrc(0)>> [] z = 7 -> <<RSrc(NN), RSrc(NN)>> [] z = 8 -> <<RSrc(0), RSrc(NN), RSrc(NN)>> [] OTHER -> <<RDecay(0), RSrc(NN)>>
RSrcs == CASE fam = "source" -> RHSrcs
           [] fam = "mix" -> IF R({1, 2, 3}) = 1 THEN <<>> ELSE RHSrcs
           [] fam = "temp" -> IF HeatEq THEN (IF R({1, 2}) = 1 THEN <<>> ELSE <<RHeatSrc>>) ELSE R({<<>>, <<RSrc(0)>>})
           [] fam = "coord" -> R({<<>>, <<RSrc(0)>>})
           [] OTHER -> <<>>

ICOpts(f) == {<<1000, 0, 0>>, <<500, 250, 0>>, <<0, 0, 0>>}
LawOpts == {<<"sievert", 1000, 0>>, <<"sievert", 2000, 1000>>, <<"sievert", 500, -500>>, <<"henry", 500, 0>>, <<"henry", 2000, 500>>}
SameMat(i, m) == [cfg EXCEPT !.mats[i] = m]

\* ---- derived quantities
Fields == {0, 100, 200} \cup (1..NN)
SKSurfs == UNION {{cfg.bcs[b].surf[i] : i \in DOMAIN cfg.bcs[b].surf} : b \in {b \in DOMAIN cfg.bcs : cfg.bcs[b].kind = "sk"}}
RDQ == LET k == R({"totvol", "avgvol", "maxvol", "minvol", "totsurf", "avgsurf", "maxsurf", "minsurf", "flux", "flux", "point"}
                  \cup (IF SKSurfs = {} THEN {} ELSE {"ads"}))
       IN  [k |-> k, half |-> R({TRUE, FALSE}), fs |-> R({"int", "str", "solute"}),
            f |-> IF k = "flux" THEN R({0} \cup (IF HeatEq THEN {100} ELSE {})) ELSE R(Fields),
            id |-> CASE k \in {"totvol", "avgvol", "maxvol", "minvol"} -> R(Vols)
                     [] k = "ads" -> R(SKSurfs) [] OTHER -> R({1, 2}),
            x |-> <<R(1..Len(cfg.h)), R({250, 500, 900})>>]
RDQs == <<RDQ, RDQ, RDQ, RDQ, RDQ, RDQ>>

Next1 ==
  \/ /\ stage = 0
     /\ \E me \in {R(MeshOpts)} : \E d1 \in {R(Ds)}, d2 \in {R(Ds)} :
          cfg' = [cfg EXCEPT !.x0 = me[1], !.h = me[2], !.cv = me[3],
                  !.mats = [i \in DOMAIN me[4] |-> Mat(me[4][i], IF i = 1 THEN d1[1] ELSE d2[1], IF i = 1 THEN d1[2] ELSE d2[2])]]
     /\ UNCHANGED aux
  \/ /\ stage = 1 /\ \E te \in {R(TempOpts)} : cfg' = [cfg EXCEPT !.temp = te] /\ UNCHANGED aux
  \/ /\ stage = 2 /\ \E k1 \in {R(KOpts)}, k2 \in {R(KOpts)}, c1 \in {R(CpOpts)}, r1 \in {R(CpOpts)} :
          cfg' = IF cfg.temp.kind \in {"transient", "steady"}
                 THEN [cfg EXCEPT !.mats = [i \in DOMAIN cfg.mats |-> [cfg.mats[i] EXCEPT !.k = IF i = 1 THEN k1 ELSE k2, !.cp = c1, !.rho = r1]]]
                 ELSE cfg
     /\ UNCHANGED aux
  \/ /\ stage = 3  \* steady, chemical potential, coordinate system, Soret
     /\ \E st \in (IF fam \in {"coord", "dirichlet", "chem", "source", "temp"} THEN {TRUE, FALSE, FALSE} ELSE {FALSE}),
           g \in (IF fam = "coord" THEN {"cylindrical", "spherical"} ELSE {"cartesian"}),
           so \in (IF fam = "coord" \/ fam = "mix" \/ fam = "temp" THEN {TRUE, FALSE} ELSE {FALSE}),
           ch \in (IF fam = "chem" THEN {TRUE} ELSE IF fam = "mix" THEN {TRUE, FALSE} ELSE {FALSE}),
           q1 \in {<<500, 0>>, <<-1000, 0>>, <<500, 250>>, <<250, -500>>} :
          /\ ~(st /\ cfg.temp.kind = "transient")
          /\ cfg' = [cfg EXCEPT !.steady = st, !.geo = g, !.soret = so, !.chem = ch,
                     !.mats = [i \in DOMAIN cfg.mats |-> [cfg.mats[i] EXCEPT !.Q = IF i = 1 THEN q1 ELSE <<1000, 0>>]]]
     /\ UNCHANGED aux
  \/ /\ stage = 4
     /\ \E l1 \in LawOpts, l2 \in LawOpts :
          /\ (fam = "mix" => l1[1] = "sievert" /\ l2[1] = "sievert")
          /\ cfg' = IF cfg.chem THEN [cfg EXCEPT !.mats = [i \in DOMAIN cfg.mats |->
                       LET z == IF i = 1 THEN l1 ELSE l2 IN
                       [cfg.mats[i] EXCEPT !.law = z[1], !.S = z[2],
                        !.jS = IF cfg.temp.kind \in {"transient", "steady"} THEN z[3] \div 4 ELSE z[3]]]] ELSE cfg
     /\ UNCHANGED aux
  \/ /\ stage = 5  \* traps
     /\ LET henry == \E m \in DOMAIN cfg.mats : cfg.chem /\ cfg.mats[m].law = "henry" IN
        \E n \in (IF henry THEN {0} ELSE CASE fam = "traps" -> {1, 2, 3} [] fam = "many" -> {11} [] fam = "extr" -> {1, 2} [] fam = "source" /\ cfg.steady -> {0} [] fam \in {"mix", "source", "dirichlet"} -> {0, 1, 2}
                    [] fam = "chem" -> {0, 0, 1} [] fam = "coord" -> {0, 0, 1} [] fam = "surf" -> {0, 1} [] OTHER -> {0}) :
        IF n = 0 THEN UNCHANGED cfg
        ELSE IF n = 11 THEN cfg' = [cfg EXCEPT !.traps = RMany(n)]
        ELSE \E t1 \in {IF fam = "extr" THEN (IF R({1, 2}) = 1 THEN RExt ELSE RNeu) ELSE IF fam = "traps" /\ R({1, 2}) = 1 THEN RGrouped ELSE RSimple} :
             IF n = 1 THEN cfg' = [cfg EXCEPT !.traps = <<t1>>]
             ELSE \E t2 \in {IF fam = "extr" THEN (LET z == R(1..3) IN CASE z = 1 -> RSimple [] z = 2 -> RExt [] OTHER -> RNeu) ELSE RSimple}, ord \in {R({1, 2})} :
                  \E t3 \in {IF n = 3 THEN <<RSimple>> ELSE <<>>} :
                    cfg' = [cfg EXCEPT !.traps = (IF ord = 1 THEN <<t1, t2>> ELSE <<t2, t1>>) \o t3]
     /\ UNCHANGED aux
  \/ /\ stage = 6 /\ \E el \in (IF cfg.traps # <<>> THEN {"CG", "DG"} ELSE {"CG"}) : cfg' = [cfg EXCEPT !.el = el]
     /\ UNCHANGED aux
  \/ /\ stage = 7  \* initial conditions
     /\ \E u0 \in {<<1000, 0, 0>>, <<500, 250, 0>>, <<0, 0, 0>>}, t0 \in {<<250, 0, 0>>, <<0, 0, 0>>, <<125, 125, 0>>}, both \in BOOLEAN :
          LET hen == \E m \in DOMAIN cfg.mats : cfg.chem /\ cfg.mats[m].law = "henry"
              u == IF hen THEN <<[f |-> 0, a |-> IF u0[1] = 0 THEN <<750, 0, 0>> ELSE u0]>>
                   ELSE IF cfg.steady \/ u0[1] = 0 THEN <<>> ELSE <<[f |-> 0, a |-> u0]>>
              tt == IF cfg.steady \/ NN = 0 \/ t0[1] = 0 THEN <<>>
                    ELSE IF both /\ NN > 1 THEN <<[f |-> 2, a |-> t0], [f |-> 1, a |-> <<500, 0, 0>>]>> ELSE <<[f |-> NN, a |-> t0]>>
          IN  cfg' = [cfg EXCEPT !.ics = u \o tt]
     /\ UNCHANGED aux
  \/ /\ stage = 8 /\ \E b \in {RBcs} : cfg' = [cfg EXCEPT !.bcs = b] /\ UNCHANGED aux
  \/ /\ stage = 9 /\ \E q \in {RSrcs} : cfg' = [cfg EXCEPT !.srcs = q] /\ UNCHANGED aux
  \/ /\ stage = 10
     /\ \E d \in {R({<<500, 0, 2000>>, <<1000, 0, 3000>>, <<250, 2, 1750>>, <<1000, 0, 1500>>, <<500, 0, 2000>>, <<250, 2, 1750>>, <<200, 0, 2400>>})} :
          cfg' = [cfg EXCEPT !.final = IF cfg.steady THEN 0 ELSE d[3]] /\ aux' = [aux EXCEPT !.dt = d[1], !.ratio = d[2]]
  \/ /\ stage = 11
     /\ \E fs \in {"int", "str", "solute"}, ja \in {TRUE, TRUE, FALSE}, rf \in {"obj", "name"}, od \in {0, 1}, vl \in {"list", "split"} :
        \E hw \in {R({"", "", "expr", "uexpr", "func"})} :      \* numbers and sympy, or FEniCS objects
          aux' = [aux EXCEPT !.fs = fs, !.jac = ja, !.ref = rf, !.order = od, !.vols = vl, !.how = hw]
     \* ids of the traps: their positions, or given by the user (see TId)
     /\ \E z \in {IF cfg.traps = <<>> THEN 0 ELSE R({0, 0, 1, 2})} : cfg' = [cfg EXCEPT !.ids = z]
  \/ /\ stage = 12
     /\ \E d \in {IF WithDQ THEN RDQs ELSE <<>>} : cfg' = [cfg EXCEPT !.dqs = d]
     /\ UNCHANGED aux
Emit == /\ stage = 13 /\ PrintT("GEN " \o ToJson([fam |-> fam, cfg |-> cfg, aux |-> aux])) /\ UNCHANGED <<cfg, aux>>
GNext == /\ (Next1 \/ Emit) /\ stage' = stage + 1 /\ UNCHANGED fam
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
