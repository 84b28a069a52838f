---------------------------- MODULE PlaneTrace ------------------------------
(* Validation of recorded 2D and 3D simulations against Plane.              *)
EXTENDS Plane, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, viol
tvars == <<tr, l, viol>>
Tr == Traces[tr]
C == Tr.cfg
S(i) == Tr.states[i]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ viol = {}
InitClauses(s) ==
    Flag("ic_temperature", PT0OK(C, s))
    \cup Flag("ic_mobile", C.steady \/ PU0OK(C, s))
    \cup UNION {Flag("ic_trap", C.steady \/ PTrap0OK(C, s, k)) : k \in DOMAIN C.traps}
StepClauses(p, s) ==
    IF ~PFinite(C, s) THEN Flag("not_a_number", FALSE) ELSE
    IF ~PInRange(C, p, s) THEN Flag("out_of_range", FALSE) ELSE
    Flag("time", C.steady \/ s.t > p.t)
    \cup Flag("inventory", PInventoryOK(C, p, s))
    \cup Flag("temperature", PTempOK(C, p, s))
    \cup Flag("mobile_balance", PMobileOK(C, p, s))
    \cup Flag("mobile_imposed", \A i \in PNodes(C) : PMobileDirOK(C, s, i))
    \cup UNION {Flag("trap_balance", PTrapOK(C, p, s, k)) : k \in DOMAIN C.traps}
    \cup UNION {Flag("trap_imposed", PTrapDirOK(C, s, k)) : k \in DOMAIN C.traps}
    \cup UNION {Flag("trap_continuous", PTrapContinuous(C, s, k)) : k \in DOMAIN C.traps}
    \cup Flag("post_processed", PPostOK(C, s) /\ s.same = 1)
    \cup UNION {Flag("C16." \o C.dqs[z].k, z \in DOMAIN s.q /\ PDerivedOK(C, s, C.dqs[z], s.q[z])) : z \in DOMAIN C.dqs}
EndClauses ==
    Flag("run_failed", Tr.end \in {"ok", "diverged"})
    \cup Flag("no_steps", Tr.end = "diverged" \/ Len(Tr.states) >= 2)
    \cup Flag("final_time", Tr.end # "ok" \/ C.steady \/ Len(Tr.states) < 2 \/ Abs(S(Len(Tr.states)).t - M(C.final)) <= 20)
Step ==
    /\ l <= Len(Tr.states)
    /\ l' = l + 1 /\ UNCHANGED tr
    /\ viol' = viol \cup (IF l = 0 THEN EndClauses
                          ELSE IF l = 1 THEN InitClauses(S(1))
                          ELSE StepClauses(S(l - 1), S(l)))
Verdict == /\ l = Len(Tr.states) + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.states), viol |-> viol]))
           /\ UNCHANGED <<tr, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
