------------------------------- MODULE Restart ------------------------------
(***************************************************************************)
(* Stopping a simulation and continuing it from its checkpoint files.      *)
(*                                                                         *)
(* A run takes steps; every checkpoint file gets the state of step 1 and   *)
(* then of every mode-th one.  A restart begins at time 0 from one entry   *)
(* of the files, chosen by its position (negative: from the end), and runs *)
(* on.  `hist` is the sequence of states since the very beginning: the     *)
(* states a run without interruption would have had.                       *)
(*                                                                         *)
(* States are abstract here (RestartMC: a deterministic function `Nxt`);    *)
(* RestartTrace reads the same relations on recorded fields.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* which entries a file has after n steps with a given mode: the steps written
Written(n, mode) == SelectSeq([i \in 1..n |-> i], LAMBDA i : (i - 1) % mode = 0)
\* the step that position idx of a file with these steps denotes
StepAt(w, idx) == IF idx >= 0 THEN w[idx + 1] ELSE w[Len(w) + idx + 1]
ValidIdx(w, idx) == IF idx >= 0 THEN idx < Len(w) ELSE -idx <= Len(w)
=============================================================================
