-------------------------- MODULE TransportTrace ----------------------------
(* Validation of recorded simulations against Transport.  A trace has the    *)
(* configuration, the initial state the code set up, the state of every      *)
(* accepted step, and how the run ended.                                      *)
EXTENDS Derived, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, viol
tvars == <<tr, l, viol>>
Tr == Traces[tr]
C == Tr.cfg
S(i) == Tr.states[i]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}

TInit == tr \in 1..Len(Traces) /\ l = 0 /\ viol = {}

InitClauses(s) ==
    Flag("ic_temperature", T0OK(C, s))
    \cup Flag("ic_mobile", C.steady \/ U0OK(C, s))
    \cup UNION {Flag("ic_trap", C.steady \/ Trap0OK(C, s, k)) : k \in DOMAIN C.traps}
    \cup Flag("ic_surface", C.steady \/ Surf0OK(C, s))
    \cup Flag("ic_density", C.steady \/ Dens0OK(C, s))

StepClauses(p, s) ==
    IF ~Finite(C, s) THEN Flag("not_a_number", FALSE) ELSE
    IF ~InRange(C, p, s) THEN Flag("out_of_range", FALSE) ELSE
    Flag("time", C.steady \/ s.t > p.t)
    \cup Flag("inventory", InventoryOK(C, p, s))
    \cup UNION {Flag("temperature", TempOK(C, p, s, i)) : i \in Nodes(C)}
    \cup UNION {Flag("mobile_balance", MobileOK(C, p, s, i)) : i \in Nodes(C)}
    \cup UNION {Flag("mobile_imposed", MobileDirOK(C, s, i)) : i \in Nodes(C)}
    \cup UNION {Flag("trap_balance", TrapOK(C, p, s, k)) : k \in DOMAIN C.traps}
    \cup UNION {Flag("trap_imposed", TrapDirOK(C, s, k)) : k \in DOMAIN C.traps}
    \cup UNION {Flag("trap_continuous", TrapContinuous(C, s, k)) : k \in DOMAIN C.traps}
    \cup UNION {Flag("surface_balance", ~OnSurf(C.bcs[b], i, C) \/ SurfOK(C, p, s, b, i)) :
                  b \in {b \in DOMAIN C.bcs : C.bcs[b].kind = "sk"},
                  i \in {i \in Nodes(C) : \E b \in DOMAIN C.bcs : C.bcs[b].kind = "sk" /\ OnSurf(C.bcs[b], i, C)}}
    \cup UNION {Flag("density_balance", C.steady \/ DensOK(C, p, s, k)) :
                  k \in {k \in DOMAIN C.traps : C.traps[k].kind # "trap"}}
    \cup Flag("post_processed", PostOK(C, s) /\ s.same = 1)
    \cup UNION {Flag("C16." \o C.dqs[z].k, z \in DOMAIN s.q /\ DerivedOK(C, s, C.dqs[z], s.q[z])) : z \in DOMAIN C.dqs}

EndClauses ==
    \* a nonlinear solver may give up; nothing may be reported as solved then
    Flag("run_failed", Tr.end \in {"ok", "diverged"})
    \cup Flag("no_steps", Tr.end = "diverged" \/ Len(Tr.states) >= 2)
    \cup Flag("final_time", Tr.end # "ok" \/ C.steady \/ Len(Tr.states) < 2 \/ Abs(S(Len(Tr.states)).t - M(C.final)) <= 20)

Step ==
    /\ l <= Len(Tr.states)
    /\ l' = l + 1 /\ UNCHANGED tr
    /\ viol' = viol \cup (IF l = 0 THEN EndClauses
                          ELSE IF l = 1 THEN InitClauses(S(1))
                          ELSE StepClauses(S(l - 1), S(l)))
Verdict == /\ l = Len(Tr.states) + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.states), viol |-> viol]))
           /\ UNCHANGED <<tr, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
