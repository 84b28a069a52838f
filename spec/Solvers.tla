------------------------------ MODULE Solvers -------------------------------
(***************************************************************************)
(* Which Newton solver, with which parameters, each nonlinear problem of a *)
(* simulation is solved with.                                              *)
(*                                                                         *)
(* Problems: "h" hydrogen transport (parameters: Settings), "T" the heat   *)
(* problem, "e1", "e2" the densities of extrinsic traps (parameters: their *)
(* own arguments).  initialise() makes built-in solvers from the           *)
(* parameters in force, for "h", "e1", "e2" always, for "T" unless the     *)
(* user provided one.  A solver the user provides replaces the one there   *)
(* is, with its own parameters.                                            *)
(*   st.set[p]  parameters in force;                                       *)
(*   st.ins[p]  [own |-> number of a user's solver, 0 built-in, -1 none,   *)
(*               par |-> its parameters]                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Params == [abs : 1..3, rel : 1..3, its : {20, 30, 40}, lin : {"default", "mumps", "umfpack", "gmres"}, pre : {"default", "ilu", "jacobi"}]
Problems(c) == {"h"} \cup (IF c.heat = "none" THEN {} ELSE {"T"}) \cup (IF c.ntrap > 0 THEN {"e1"} ELSE {}) \cup (IF c.ntrap > 1 THEN {"e2"} ELSE {})
None(q) == [own |-> -1, par |-> q]
Begin(c) == [set |-> [p \in Problems(c) |-> c.par[p]], ins |-> [p \in Problems(c) |-> None(c.par[p])], ready |-> FALSE]
Builtin(st, p) == [own |-> 0, par |-> st.set[p]]
After(c, st, op) ==
    CASE op.op = "set" -> [st EXCEPT !.set[op.p] = op.par]
      \* a new object in the place of the old one
      [] op.op = "renew" -> [st EXCEPT !.set[op.p] = op.par, !.ins[op.p] = None(op.par)]
      [] op.op = "give" -> [st EXCEPT !.ins[op.p] = [own |-> op.j, par |-> op.par]]
      [] op.op = "init" -> [st EXCEPT !.ready = TRUE,
                              !.ins = [p \in Problems(c) |-> IF p = "T" /\ st.ins[p].own > 0 THEN st.ins[p] ELSE Builtin(st, p)]]
      [] op.op = "run" -> [st EXCEPT !.ready = FALSE]
Can(c, st, op) ==
    CASE op.op \in {"set", "renew"} -> ~st.ready
      [] op.op = "give" -> (op.p = "T" /\ (c.heat = "transient" \/ ~st.ready)) \/ st.ready
      [] op.op = "init" -> ~st.ready
      [] op.op = "run" -> st.ready
\* the problems solved by initialise() and by run()
SolvedBy(c, what) ==
    CASE what = "init" -> IF c.heat = "steady" THEN {"T"} ELSE {}
      [] what = "run" -> {p \in Problems(c) : p # "T" \/ c.heat = "transient"}
=============================================================================
