----------------------------- MODULE RulesTrace -----------------------------
(* Recorded initialisations: accepted exactly when the rules find no mistake, *)
(* otherwise refused with the error of one of the mistakes, before anything   *)
(* was solved or written.                                                     *)
EXTENDS Rules, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, done
Tr == Traces[tr]
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> 1]}
Clauses == IF Errs(Tr.c) = {} THEN Flag("sound_accepted", Tr.end = "ok")
           ELSE Flag("mistake_refused", Tr.end # "ok")
                \cup (IF Tr.end = "ok" THEN {} ELSE Flag("kind_of_error", Tr.end \in Errs(Tr.c)))
                \cup Flag("nothing_computed", Tr.solves = 0)
TInit == tr \in 1..Len(Traces) /\ done = FALSE
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
         /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> 1, errs |-> Errs(Tr.c), viol |-> Clauses]))
TSpec == TInit /\ [][TNext]_<<tr, done>>
=============================================================================
