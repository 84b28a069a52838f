---------------------------- MODULE SteppingTrace ---------------------------
(* Validation of recorded runs against Stepping.  Unit: 1/1024000 tick (the  *)
(* generator's unit times 1000); recorded numbers are rounded to it.         *)
(*                                                                           *)
(* Events:  try [dt, pos, nb, ok]  a solver call, with the step in the equations*)
(*          acc [t, up, c, T]  a post-processed (accepted) time step          *)
(* pos, up: dt > 0, t above the previous accepted time, before rounding       *)
(*          end [s, t]         how run() ended                                *)
(* c is what the equations integrated (kind "source": dc/dt = 1) or the value *)
(* of a boundary expression equal to t (kind "dirichlet"); T is temperature   *)
(* whose prescribed value is t.                                               *)
EXTENDS Stepping, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, lastnb, used, pend, viol
tvars == <<svars, tr, l, lastnb, used, pend, viol>>

K == 1000
Scaled(c) == [init |-> c.init * K, num |-> c.num, den |-> c.den,
              dtmin |-> IF c.dtmin < 0 THEN -1 ELSE c.dtmin * K,
              cap |-> [i \in DOMAIN c.cap |-> <<c.cap[i][1] * K, IF c.cap[i][2] < 0 THEN -1 ELSE c.cap[i][2] * K>>],
              miles |-> [i \in DOMAIN c.miles |-> c.miles[i] * K], final |-> c.final * K]
Tr == Traces[tr]
Ev == Tr.events[l]
Near(a, b) == Abs(a - b) <= 12 + Abs(b) \div 500000
Flag(name, bad) == IF bad THEN {[c |-> name, at |-> l]} ELSE {}

\* caps that may apply at time x: exact recordings know which side of a break
\* they are on, rounded ones near a break may be on either
CapsAt(c, x) == IF Tr.exact = 1 THEN {CapAt(c, x)}
                ELSE {CapAt(c, x), CapAt(c, x + 2 + x \div 500000), CapAt(c, x - 2 - x \div 500000)}

\* how far from dt_min a stepsize is known to be
Fuzz == IF Tr.exact = 1 THEN 0 ELSE 12

\* phases here: "first" (no attempt yet), "accepted" (t accepted, next attempt
\* due), "failed" (last attempt failed), "solved" (attempt converged, its
\* acceptance due), "over"
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ cfg = Scaled(Traces[tr].cfg)
         /\ phase = "first" /\ t = 0 /\ dt = 0 /\ lastnb = 0 /\ used = 0 /\ pend = 0
         /\ viol = {}

Try(e) ==
    LET minok == IF phase = "failed" THEN Shrink(cfg, dt) >= cfg.dtmin - Fuzz ELSE TRUE
        expected == CASE phase = "first" -> {FirstStep(cfg)}
                      [] phase = "accepted" -> {AfterAccept(cfg, t, dt, lastnb, k) : k \in CapsAt(cfg, t)}
                      [] phase = "failed" -> {AfterFail(cfg, t, dt, k) : k \in CapsAt(cfg, t)}
                      [] OTHER -> {e.dt}
        hit == \E x \in expected : Near(e.dt, x)
        beyond == t + e.dt > cfg.final + cfg.final \div RelDen + 12
        skipped == {m \in Range(cfg.miles) : m < t + e.dt /\ ~Close(t + e.dt, m) /\ m > t /\ ~Close(t, m)}
    IN
    /\ viol' = viol
         \cup Flag("C01.nonpositive_step", e.pos = 0)
         \cup Flag("C01.attempt_after_final", phase = "accepted" /\ Done(cfg, t) /\ ~Close(t, cfg.final) )
         \cup Flag("C01.continues_after_final", phase = "accepted" /\ Close(t, cfg.final))
         \cup Flag("C01.beyond_final", beyond)
         \cup Flag("C02.milestone_skipped", skipped # {})
         \cup Flag("C03.first_step", phase = "first" /\ ~hit /\ ~beyond /\ skipped = {})
         \cup Flag("C03.step_law", phase = "accepted" /\ ~hit /\ ~beyond /\ skipped = {} /\ ~Done(cfg, t))
         \cup Flag("C03.cap_exceeded", phase = "accepted" /\ Adaptive(cfg)
                      /\ \A k \in CapsAt(cfg, t) : k >= 0 /\ e.dt > k + 12)
         \cup Flag("C04.retry_not_allowed", phase = "failed" /\ (~Adaptive(cfg) \/ cfg.dtmin < 0))
         \cup Flag("C04.retry_below_dt_min", phase = "failed" /\ Adaptive(cfg) /\ cfg.dtmin >= 0 /\ ~minok)
         \cup Flag("C04.retry_not_smaller", phase = "failed" /\ e.dt >= dt)
         \cup Flag("C04.retry_law", phase = "failed" /\ Adaptive(cfg) /\ ~hit)
         \cup Flag("C04.no_acceptance", phase = "solved")
    /\ dt' = e.dt /\ lastnb' = e.nb
    /\ phase' = IF e.ok = 1 THEN "solved" ELSE "failed"
    /\ UNCHANGED <<t, cfg>>

Acc(e) ==
    /\ viol' = viol
         \cup Flag("C04.failed_solve_accepted", phase = "failed")
         \cup Flag("C04.accepted_without_solve", phase \in {"first", "accepted"})
         \cup Flag("C01.time_not_increasing", e.up = 0 \/ e.t < t)
         \cup Flag("C04.increment_differs_from_step", phase = "solved" /\ ~Near(e.t, t + dt))
         \cup Flag("C01.time_beyond_final", e.t > cfg.final + cfg.final \div RelDen + 12)
         \cup Flag("C02.milestone_passed", \E m \in Range(cfg.miles) :
                       m > t /\ ~Close(t, m) /\ m < e.t /\ ~Close(e.t, m))
         \cup Flag("C04.solution_not_from_last_accepted", ~Near(e.c, e.t))
         \cup Flag("C04.temperature_at_wrong_time", ~Near(e.T, e.t))
    /\ t' = e.t /\ phase' = "accepted"
    /\ UNCHANGED <<cfg, dt, lastnb>>

End(e) ==
    LET mustfail == phase = "failed" /\ (~Adaptive(cfg) \/ cfg.dtmin < 0 \/ Shrink(cfg, dt) < cfg.dtmin - Fuzz)
        mayfail  == phase = "failed" /\ (mustfail \/ Shrink(cfg, dt) < cfg.dtmin + Fuzz)
    IN
    /\ viol' = viol
         \cup Flag("C01.stops_early", e.s = "ok" /\ ~Close(t, cfg.final))
         \cup Flag("C01.no_termination", e.s \in {"timeout", "toolong"} /\ phase # "failed")
         \cup Flag("C04.failure_not_reported", e.s \in {"ok", "timeout", "toolong"} /\ phase = "failed")
         \cup Flag("C01.unexpected_error", e.s \notin {"ok", "timeout", "toolong"} /\ phase # "failed")
         \cup Flag("C04.gives_up_too_early", e.s = "ValueError" /\ phase = "failed" /\ ~mayfail)
         \cup Flag("C04.wrong_error", e.s \notin {"ok", "timeout", "toolong", "ValueError"} /\ phase = "failed")
         \cup Flag("C01.final_clock", e.s = "ok" /\ ~Near(e.t, t))
    /\ phase' = "over" /\ UNCHANGED <<cfg, t, dt, lastnb>>

Step == /\ l <= Len(Tr.events)
        /\ CASE Ev.e = "try" -> Try(Ev)
             [] Ev.e = "acc" -> Acc(Ev)
             [] Ev.e = "end" -> End(Ev)
        /\ l' = l + 1 /\ UNCHANGED <<tr, used, pend>>
Verdict == /\ l = Len(Tr.events) + 1 /\ l' = l + 1
           /\ LET v == viol \cup (IF phase # "over" THEN {[c |-> "C01.no_end_event", at |-> l]} ELSE {})
              IN  PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.events), viol |-> v]))
           /\ UNCHANGED <<svars, tr, lastnb, used, pend, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
