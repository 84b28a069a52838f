--------------------------- MODULE ContainersTrace --------------------------
EXTENDS Containers, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, s, viol
tvars == <<tr, l, s, viol>>
Tr == Traces[tr]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = <<>> /\ viol = {}
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET e == Tr.ops[l] O == Outcomes(s, e) IN
           \* go on from what the container really holds
           /\ s' = e.s
           /\ viol' = viol \cup Flag("only_valid_items", AllGood(e.s) \/ ~AllGood(s))
                           \cup Flag("outcome", ~AllGood(s) \/ \E o \in O : o.res = e.res)
                           \cup Flag("contents", ~AllGood(s) \/ \E o \in O : o.s = e.s)
                           \cup Flag("kept_type", e.typed = 1)
Verdict == /\ l = Len(Tr.ops) + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.ops), viol |-> viol \cup Flag("run_failed", Tr.end = "ok")]))
           /\ UNCHANGED <<tr, s, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
