----------------------------- MODULE SolversTrace ---------------------------
(* An event of init or run has the distinct solves made by it:                *)
(* [p, own, par] (own: the number of the user's solver, 0: another one).      *)
EXTENDS Solvers, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st, viol
tvars == <<tr, l, st, viol>>
Tr == Traces[tr]
C == Tr.c
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = Begin(Traces[tr].c) /\ viol = {}
Ran(s) == {s[i] : i \in DOMAIN s}
Solves(e, s) ==
    Flag("call_failed", e.res = "ok")
    \cup IF e.res # "ok" THEN {} ELSE
    Flag("solved_problems", {x.p : x \in Ran(e.solves)} = SolvedBy(C, e.op))
    \cup UNION {LET i == s.ins[x.p] IN
                Flag("users_solver", x.own = i.own)
                \cup Flag("tolerances", x.par.abs = i.par.abs /\ x.par.rel = i.par.rel)
                \cup Flag("maximum_iterations", x.par.its = i.par.its)
                \cup Flag("linear_solver", x.par.lin = i.par.lin /\ x.par.pre = i.par.pre)
                : x \in {x \in Ran(e.solves) : x.p \in Problems(C)}}
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET e == Tr.ops[l] n == After(C, st, e) IN
           /\ st' = n
           /\ viol' = viol \cup Flag("protocol", Can(C, st, e)) \cup (IF e.op \in {"init", "run"} THEN Solves(e, n) ELSE {})
Verdict == /\ l = Len(Tr.ops) + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.ops), viol |-> viol \cup Flag("run_failed", Tr.end = "ok")]))
           /\ UNCHANGED <<tr, st, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
