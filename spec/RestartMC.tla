------------------------------ MODULE RestartMC -----------------------------
(* Any number of restarts from any entry of the checkpoint files leads        *)
(* through the states of the uninterrupted run.                               *)
EXTENDS Restart
CONSTANTS MaxSteps, MaxRuns, Modes
VARIABLES run, from, len, mode, state, files
vars == <<run, from, len, mode, state, files>>
\* an injective "solver": the state after s
Nxt(s) == 2 * s + 1
RECURSIVE Direct(_)
Direct(n) == IF n = 0 THEN 0 ELSE Nxt(Direct(n - 1))
MInit == run = 1 /\ from = 0 /\ len = 0 /\ state = 0 /\ files = <<>> /\ mode \in Modes
Advance == /\ from + len < MaxSteps
           /\ len' = len + 1 /\ state' = Nxt(state)
           /\ files' = IF len % mode = 0 THEN Append(files, [step |-> len + 1, s |-> state']) ELSE files
           /\ UNCHANGED <<run, from, mode>>
RestartFrom(idx) ==
    /\ run < MaxRuns /\ files # <<>>
    /\ LET w == [i \in DOMAIN files |-> files[i].step] IN
       /\ ValidIdx(w, idx)
       /\ LET k == StepAt(w, idx) e == CHOOSE i \in DOMAIN files : files[i].step = k IN
          from' = from + k /\ state' = files[e].s
    /\ run' = run + 1 /\ len' = 0 /\ files' = <<>> /\ mode' \in Modes
MNext == Advance \/ \E idx \in -3..3 : RestartFrom(idx)
MSpec == MInit /\ [][MNext]_vars
Continues == state = Direct(from + len)
FilesAsWritten == [i \in DOMAIN files |-> files[i].step] = Written(len, mode)
Inv == Continues /\ FilesAsWritten
=============================================================================
