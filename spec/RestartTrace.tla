---------------------------- MODULE RestartTrace ----------------------------
(* Validation of recorded restarts: A is the uninterrupted run (its states,   *)
(* the initial one first), B the run restarted from step k, D (if any) the    *)
(* one restarted from step k2 of B.                                           *)
EXTENDS Num, Restart, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, viol
tvars == <<tr, l, viol>>
Tr == Traces[tr]
P == Tr.plan
A == Tr.A
Runs == <<Tr.B, Tr.D>>
From(r) == IF r = 1 THEN P.k ELSE P.k + P.k2
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
SameSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Near(x[i], y[i], tol)
Same(p, q) ==
    /\ SameSeq(p.u, q.u, 40) /\ SameSeq(p.T, q.T, 20)
    /\ Len(p.tr) = Len(q.tr)
    /\ \A k \in DOMAIN p.tr : Len(p.tr[k]) = Len(q.tr[k]) /\ \A e \in DOMAIN p.tr[k] : SameSeq(p.tr[k][e], q.tr[k][e], 40)
\* a restart of r runs must exist
Present(r) == r <= P.runs
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ viol = {}
EndClauses ==
    Flag("run_failed", Tr.end \in {"ok", "diverged"})
    \cup Flag("file_times", Tr.end # "ok" \/ \A f \in DOMAIN Tr.times :
           LET w == Written(P.n, P.mode) IN
           Len(Tr.times[f]) = Len(w) /\ \A i \in DOMAIN w : Near(Tr.times[f][i], A[w[i] + 1].t, 2))
    \cup Flag("file_label", Tr.labels = 1)
    \cup Flag("length", Tr.end # "ok" \/ (Len(A) = P.n + 1 /\ \A r \in 1..2 : Present(r) => Len(Runs[r]) = P.n - From(r) + 1))
RunClauses(r, j) ==
    IF ~Present(r) \/ j > Len(Runs[r]) \/ From(r) + j > Len(A) THEN {}
    ELSE LET b == Runs[r][j] a == A[From(r) + j] IN
         Flag(IF j = 1 THEN "restart_state" ELSE "restart_continues", Same(b, a))
         \cup Flag("restart_time", Abs(b.t - (a.t - A[From(r) + 1].t)) <= 20)
Step == /\ l <= P.n + 1 /\ l' = l + 1 /\ UNCHANGED tr
        /\ viol' = viol \cup (IF l = 0 THEN EndClauses ELSE RunClauses(1, l) \cup RunClauses(2, l))
Verdict == /\ l = P.n + 2 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(A), viol |-> viol]))
           /\ UNCHANGED <<tr, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
