------------------------------ MODULE SolversMC -----------------------------
(* Exhaustive over the protocol with two parameter sets: no run starts        *)
(* without a solver for each of its problems, a user's heat solver survives   *)
(* initialise(), and otherwise a built-in solver has the parameters in force. *)
EXTENDS Solvers
VARIABLES c, st, last, gave
A == [abs |-> 1, rel |-> 1, its |-> 20, lin |-> "default", pre |-> "default"]
B == [abs |-> 2, rel |-> 3, its |-> 40, lin |-> "mumps", pre |-> "default"]
Cfgs == {[heat |-> h, ntrap |-> n, par |-> [p \in {"h", "T", "e1", "e2"} |-> A]] : h \in {"none", "transient", "steady"}, n \in 0..1}
Ops(k) == [op : {"set", "renew", "give"}, p : Problems(k), par : {A, B}, j : {1}] \cup [op : {"init", "run"}, p : {"h"}, par : {A}, j : {0}]
Init == c \in Cfgs /\ st = Begin(c) /\ last = "none" /\ gave = FALSE
Next == \E op \in Ops(c) : /\ Can(c, st, op) /\ st' = After(c, st, op) /\ last' = op.op /\ UNCHANGED c
                           /\ gave' = (CASE op.op = "give" /\ op.p = "T" -> TRUE [] op.op = "renew" /\ op.p = "T" -> FALSE [] OTHER -> gave)
Spec == Init /\ [][Next]_<<c, st, last, gave>>
HasSolver == st.ready => \A p \in Problems(c) : st.ins[p].own >= 0
Fresh == last = "init" => \A p \in Problems(c) : (p # "T" \/ ~gave) => st.ins[p] = [own |-> 0, par |-> st.set[p]]
HeatKept == "T" \in Problems(c) => (gave <=> st.ins["T"].own > 0)
=============================================================================
