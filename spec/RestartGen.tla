----------------------------- MODULE RestartGen -----------------------------
(* A configuration of TransportGen without explicit time dependence, and     *)
(* where to restart from.                                                    *)
EXTENDS TransportGen, Restart
VARIABLE plan
rvars == <<fam, stage, cfg, aux, plan>>
Z(a) == [a EXCEPT ![3] = 0]
FB(b) == [b EXCEPT !.a = Z(b.a), !.rp = Z(b.rp), !.pr = Z(b.pr), !.kt = 0, !.jt = 0]
Steps == {<<500, 4>>, <<1000, 3>>, <<250, 5>>}
\* with chemical potential the solubility is uniform in each cell
LawsOf(c) == [i \in DOMAIN c.mats |-> IF c.chem THEN [c.mats[i] EXCEPT !.law = "sievert", !.jS = IF c.temp.a[2] = 0 /\ ~HeatEq THEN @ ELSE 0] ELSE c.mats[i]]
Freeze ==
    /\ stage = 13 /\ ~cfg.steady
    /\ \E st \in {R(Steps)}, m \in {R({1, 1, 2})}, neg \in {R(BOOLEAN)}, lab \in {R(BOOLEAN)}, runs \in {R({1, 1, 2})}, tf \in {R(BOOLEAN)}, ab \in {R(BOOLEAN)} :
       \E k \in {R({i \in 1..(st[2] - 1) : (i - 1) % m = 0})} :
       \E k2 \in {R({i \in 1..(st[2] - k) : (i - 1) % m = 0})} :
         LET w == Written(st[2], m)
             idx == ((k - 1) \div m) - (IF neg THEN Len(w) ELSE 0)
             w2 == Written(st[2] - k, m)
         IN
         /\ plan' = [n |-> st[2], mode |-> m, k |-> k, idx |-> idx, label |-> lab, runs |-> IF k2 < st[2] - k THEN runs ELSE 1,
                     k2 |-> k2, idx2 |-> ((k2 - 1) \div m) - (IF neg THEN Len(w2) ELSE 0), tfile |-> tf, abs |-> ab]
         /\ aux' = [aux EXCEPT !.dt = st[1], !.ratio = 0]
         /\ cfg' = [cfg EXCEPT !.final = st[1] * st[2], !.temp.a = Z(@), !.bcs = LET B == SelectSeq(@, LAMBDA b : b.kind # "sk") IN [b \in DOMAIN B |-> FB(B[b])],
                      !.srcs = [q \in DOMAIN @ |-> IF @[q].kind = "gauss" THEN [@[q] EXCEPT !.a = Z(@), !.mu = Z(@)] ELSE [@[q] EXCEPT !.a = Z(@)]],
                      !.mats = LawsOf(cfg),
                      !.traps = [t \in DOMAIN @ |-> [@[t] EXCEPT !.n = [i \in DOMAIN @ |-> Z(@[i])]]]]
REmit == /\ stage = 14 /\ PrintT("GEN " \o ToJson([fam |-> fam, cfg |-> cfg, aux |-> aux, plan |-> plan])) /\ UNCHANGED <<cfg, aux, plan>>
RInit == GInit /\ plan = [n |-> 0]
RNext == /\ ((Next1 /\ UNCHANGED plan) \/ Freeze \/ REmit) /\ stage' = stage + 1 /\ UNCHANGED fam
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
