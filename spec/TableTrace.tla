----------------------------- MODULE TableTrace -----------------------------
(* What a table of a real simulation looks like.                              *)
EXTENDS Table, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, viol
tvars == <<tr, l, viol>>
Tr == Traces[tr]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> 0]}
Want == <<"t(s)">> \o [i \in DOMAIN Tr.qs |-> Title(Tr.qs[i], Tr.m)]
Clauses ==
    IF Tr.end # "ok" THEN Flag("run_failed", FALSE) ELSE
    Flag("titles", Tr.header = Want)
    \cup Flag("file_header", ~Tr.m.file \/ Tr.csv = Want)
    \cup Flag("file_columns", ~Tr.m.file \/ \A i \in DOMAIN Tr.widths : Tr.widths[i] = Len(Want))
    \cup Flag("columns", Tr.columns = [i \in DOMAIN Tr.qs |-> TRUE])
    \cup Flag("filter", Len(Tr.found) = Len(Tr.ks) /\ \A k \in DOMAIN Tr.ks : Tr.found[k].idx = Found(Tr.qs, Tr.ks[k]))
    \* one match: the quantity itself, otherwise a list
    \cup Flag("filter_single", Len(Tr.found) = Len(Tr.ks) /\ \A k \in DOMAIN Tr.ks : Tr.found[k].single = (Len(Found(Tr.qs, Tr.ks[k])) = 1))
    \cup Flag("mesh_warnings", \A i \in DOMAIN Tr.qs : (Tr.m.geo \in Meant(Tr.qs[i].cls)) = (Tr.qs[i].cls \notin Ran(Tr.warned)))
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ viol = {}
Judge == l = 0 /\ l' = 1 /\ viol' = Clauses /\ UNCHANGED tr
Verdict == /\ l = 1 /\ l' = 2
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.qs) + Len(Tr.ks), viol |-> viol]))
           /\ UNCHANGED <<tr, viol>>
TNext == Judge \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
