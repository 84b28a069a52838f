----------------------------- MODULE SteppingMC -----------------------------
(* Exhaustive checking of Stepping over a grid of configurations and every  *)
(* sequence of solver outcomes with at most MaxSlow slow (>= 5 iterations)  *)
(* and MaxFail failed solves.                                               *)
EXTENDS Stepping
CONSTANTS MaxSlow, MaxFail, Inits, Ratios, DtMins, Caps, MileSets, Finals
VARIABLES slow, fail
Configs == {[init |-> i, num |-> r[1], den |-> r[2], dtmin |-> m, cap |-> k, miles |-> ms, final |-> f] :
             i \in Inits, r \in Ratios, m \in DtMins, k \in Caps, ms \in MileSets, f \in Finals}
vars == <<svars, slow, fail>>
Init == SInit(Configs) /\ slow = 0 /\ fail = 0
FastStep == Converged(3) /\ UNCHANGED <<slow, fail>>
SlowStep == slow < MaxSlow /\ Converged(7) /\ slow' = slow + 1 /\ UNCHANGED fail
FailStep == fail < MaxFail /\ Diverged /\ fail' = fail + 1 /\ UNCHANGED slow
Begin    == Attempt /\ UNCHANGED <<slow, fail>>
Next == Begin \/ FastStep \/ SlowStep \/ FailStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(FastStep)
IncreasingV == Increasing
McInits == {128, 384, 1600}
McRatios == {<<0, 1>>, <<2, 1>>, <<3, 2>>}
McDtMins == {-1, 32, 128}
McCaps == {<<>>, <<<<0, 320>>>>, <<<<0, -1>>, <<800, 192>>>>, <<<<0, 512>>, <<720, -1>>>>}
McMiles == {<<>>, <<800>>, <<264, 280, 1024>>, <<80, 960, 2400>>}
McFinals == {1024, 1200}
McInitsS == {128, 1600}
McDtMinsS == {-1, 32}
McMilesS == {<<>>, <<264, 280, 1024>>, <<80, 960, 2400>>}
McFinalsS == {1200}
=============================================================================
