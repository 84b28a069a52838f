------------------------------ MODULE Stepping ------------------------------
(***************************************************************************)
(* The time-stepping controller of a transient FESTIM simulation           *)
(* (Simulation.run_transient/iterate, HTransportProblem.update,            *)
(* Stepsize.adapt/next_milestone).                                         *)
(*                                                                         *)
(* Times are integers.  In the model-checking configuration one unit is    *)
(* one tick; in the trace specification it is 1e-6 of a tick, and          *)
(* comparisons take the resolution Res of the recording into account.      *)
(*                                                                         *)
(* A configuration record c has                                            *)
(*   init      initial stepsize                                            *)
(*   num, den  stepsize_change_ratio = num/den; num = 0: not adaptive      *)
(*   dtmin     dt_min, -1: None                                            *)
(*   cap       max_stepsize as pieces <<from, value>>, value -1: None      *)
(*   miles     milestones (TXTExport.times included)                       *)
(*   final     final_time                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Res        \* recording resolution (0 in the exact model)
CONSTANT RelDen     \* np.isclose: |a-b| <= |b| / RelDen  (10^5 in FESTIM)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* "numerically the same instant"
Close(a, b) == Abs(a - b) <= Abs(b) \div RelDen + Res

Adaptive(c) == c.num > 0
\* integer rounding never makes a step vanish or stop growing
Grow(c, d)   == (d * c.num + c.den - 1) \div c.den
Shrink(c, d) == Max2(1, (d * c.den) \div c.num)
CapAt(c, time) ==
    LET S == {i \in DOMAIN c.cap : c.cap[i][1] <= time}
    IN  IF S = {} THEN -1 ELSE c.cap[MaxOf(S)][2]

Range(s) == {s[i] : i \in DOMAIN s}
\* milestones still ahead of `time`; one that has just been hit is behind us
Ahead(c, time) == {m \in Range(c.miles) : m > time /\ ~Close(time, m)}
ClipMile(c, time, d) ==
    LET A == Ahead(c, time)
    IN  IF A = {} THEN d ELSE Min2(d, MinOf(A) - time)
ClipFinal(c, time, d) == Min2(d, c.final - time)
Clip(c, time, d) == ClipFinal(c, time, ClipMile(c, time, d))

Capped(d, cap) == IF cap >= 0 /\ d > cap THEN cap ELSE d

\* step to use after a step accepted at `time` with nb iterations (cap given)
AfterAccept(c, time, d, nb, cap) ==
    Clip(c, time,
         IF ~Adaptive(c) THEN d
         ELSE Capped(IF nb < 5 THEN Grow(c, d) ELSE Shrink(c, d), cap))

\* may the run continue after a failed attempt with step d?
CanRetry(c, d) == Adaptive(c) /\ c.dtmin >= 0 /\ Shrink(c, d) >= c.dtmin
AfterFail(c, time, d, cap) == Clip(c, time, Capped(Shrink(c, d), cap))

FirstStep(c) == Clip(c, 0, c.init)
Done(c, time) == time >= c.final \/ Close(time, c.final)

-----------------------------------------------------------------------------
VARIABLES cfg, phase, t, dt
svars == <<cfg, phase, t, dt>>

SInit(C) == /\ cfg \in C
            /\ phase = "ready"
            /\ t = 0
            /\ dt = FirstStep(cfg)

Attempt == /\ phase = "ready"
           /\ phase' = "solving"
           /\ UNCHANGED <<cfg, t, dt>>

\* the solver converges: the step is accepted
Converged(nb) ==
    /\ phase = "solving"
    /\ t' = t + dt
    /\ IF Done(cfg, t') THEN phase' = "done" /\ dt' = 0
       ELSE /\ phase' = "ready"
            /\ dt' = AfterAccept(cfg, t', dt, nb, CapAt(cfg, t'))
    /\ UNCHANGED cfg

\* the solver fails: nothing is accepted
Diverged ==
    /\ phase = "solving"
    /\ IF CanRetry(cfg, dt)
       THEN phase' = "ready" /\ dt' = AfterFail(cfg, t, dt, CapAt(cfg, t))
       ELSE phase' = "error" /\ UNCHANGED dt
    /\ UNCHANGED <<cfg, t>>

-----------------------------------------------------------------------------
(* C01 *)
NeverBeyondFinal == t <= cfg.final
DoneAtFinal      == phase = "done" => Close(t, cfg.final)
PositiveStep     == phase \in {"ready", "solving"} => dt > 0
Increasing       == [][t' >= t /\ (phase = "solving" /\ phase' \in {"ready", "done"}
                                   /\ t' # t => t' > t)]_svars
(* C02 *)
MilestonesHit    == [][\A m \in Range(cfg.miles) : ~(t < m /\ m < t')]_svars
(* C03 *)
CapRespected == [][t' # t /\ phase' = "ready" /\ Adaptive(cfg) /\ CapAt(cfg, t') >= 0
                     => dt' <= CapAt(cfg, t')]_svars
RatioBounded == [][t' # t /\ phase' = "ready" /\ Adaptive(cfg) => dt' <= Grow(cfg, dt)]_svars
ConstantWhenFixed == [][~Adaptive(cfg) /\ phase' = "ready" => dt' <= dt]_svars
(* C04 *)
FailedNotAccepted == [][phase = "solving" /\ phase' = "ready" /\ t' = t => dt' < dt]_svars
NeverBelowMin == [][phase = "solving" /\ phase' = "ready" /\ t' = t
                      => \/ dt' >= cfg.dtmin
                         \/ CapAt(cfg, t) >= 0 /\ dt' >= CapAt(cfg, t)]_svars
ErrorOnlyWhenStuck == [][phase' = "error" /\ phase # "error" => ~CanRetry(cfg, dt)]_svars
(* termination, given that slow and failed solves do not go on for ever *)
Terminates == <>(phase \in {"done", "error"})
=============================================================================
