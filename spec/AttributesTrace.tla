--------------------------- MODULE AttributesTrace --------------------------
EXTENDS Attributes, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, obj, viol
tvars == <<tr, l, obj, viol>>
Tr == Traces[tr]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ obj = <<>> /\ viol = {}
Step == /\ l <= Len(Tr.ops) /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET e == Tr.ops[l] O == Outcomes(Tr.c, obj, e) ok == \E o \in O : o.res = "ok" IN
           \* an assignment without an object (its construction was refused wrongly) says nothing
           IF e.op = "set" /\ obj = <<>> THEN UNCHANGED <<obj, viol>>
           ELSE /\ obj' = e.obj
                /\ viol' = viol \cup Flag("wrong_value_accepted", ok \/ e.res # "ok")
                                \cup Flag("right_value_refused", ~ok \/ e.res = "ok")
                                \cup Flag("error_type", ok \/ e.res = "ok" \/ \E o \in O : o.res = e.res)
                                \cup Flag("value_held", (ok # (e.res = "ok")) \/ \E o \in O : o.obj = e.obj)
Verdict == /\ l = Len(Tr.ops) + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.ops), viol |-> viol \cup Flag("run_failed", Tr.end = "ok")]))
           /\ UNCHANGED <<tr, obj, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
