------------------------------ MODULE Exports -------------------------------
(***************************************************************************)
(* Which accepted steps each export records, and what is on disk when.     *)
(*                                                                         *)
(* An export e has kind "dq" | "xdmf" | "txt" and                          *)
(*   every  steps between computations (dq) or exports (xdmf); 0: only the *)
(*          last step (xdmf)                                               *)
(*   wr     steps between writes of a dq file; 0: at the last step         *)
(*   all, times   txt: every step, or the listed times                     *)
(*   late   txt: write the file only at the last export time               *)
(*   named  dq: has a file at all                                          *)
(* Steps are numbered from 1.  rec[e] are the steps recorded, disk[e] the  *)
(* steps in the file.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT ResT        \* resolution of recorded times

EAbs(x) == IF x < 0 THEN -x ELSE x
SameT(a, b) == EAbs(a - b) <= ResT
LastTime(e) == CHOOSE x \in {e.times[i] : i \in DOMAIN e.times} : \A i \in DOMAIN e.times : e.times[i] <= x

Records(e, n, t, final, steady) ==
    CASE e.kind = "dq" -> (n - 1) % e.every = 0
      [] e.kind = "xdmf" -> IF e.every > 0 THEN (n - 1) % e.every = 0 ELSE steady \/ SameT(t, final)
      [] e.kind = "txt" -> e.all \/ \E i \in DOMAIN e.times : SameT(e.times[i], t)
Flushes(e, n, t, final, steady) ==
    CASE e.kind = "dq" -> e.named /\ (steady \/ IF e.wr = 0 THEN SameT(t, final) ELSE (n - 1) % e.wr = 0)
      [] e.kind = "xdmf" -> Records(e, n, t, final, steady)
      [] e.kind = "txt" -> /\ Records(e, n, t, final, steady)
                           /\ ~e.late \/ steady \/ (IF e.all THEN SameT(t, final) ELSE SameT(t, LastTime(e)))

RecAfter(e, r, n, t, final, steady) == IF Records(e, n, t, final, steady) THEN Append(r, n) ELSE r
DiskAfter(e, r, d, n, t, final, steady) ==      \* r: already updated
    IF Flushes(e, n, t, final, steady) THEN r ELSE d
=============================================================================
