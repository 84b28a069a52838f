------------------------------ MODULE SolversGen ----------------------------
EXTENDS Solvers, TLC, Json
VARIABLES c, st, ops
vars == <<c, st, ops>>
R(X) == RandomElement(X)
Wt(t) == t[R(DOMAIN t)]
\* a preconditioner only goes with an iterative linear solver
Par(k) == TLCEval(LET l == Wt(<<"default", "mumps", "umfpack", "gmres">>) IN
          [abs |-> R(1..3), rel |-> R(1..3), its |-> R({20, 30, 40}), lin |-> l, pre |-> IF l = "gmres" THEN R({"ilu", "jacobi"}) ELSE "default"])
Init == c = <<>> /\ st = <<>> /\ ops = <<>>
Make == /\ c = <<>>
        /\ \E tr \in {R({TRUE, TRUE, TRUE, FALSE})} : \E h \in {Wt(<<"none", "transient", "transient", "steady", "steady">>)} : \E n \in {R(0..2)} :
           \E c0 \in {[transient |-> tr, heat |-> IF h = "transient" /\ ~tr THEN "steady" ELSE h, ntrap |-> IF tr THEN n ELSE 0,
                       par |-> [p \in {"h", "T", "e1", "e2"} |-> Par(p)]]} : c' = c0 /\ st' = Begin(c0)
        /\ UNCHANGED ops
Runs == Cardinality({i \in DOMAIN ops : ops[i].op = "run"})
Since == Len(ops) - (LET z == {i \in DOMAIN ops : ops[i].op \in {"init", "run"}} IN IF z = {} THEN 0 ELSE CHOOSE i \in z : \A j \in z : j <= i)
Act == /\ c # <<>> /\ Runs < 3
       /\ \E o \in {IF Since >= 2 \/ R(1..3) = 1 THEN (IF st.ready THEN "run" ELSE "init") ELSE IF st.ready THEN "give" ELSE Wt(<<"set", "set", "renew", "give">>)} :
          \E p \in {R(Problems(c))}, q \in {Par(Len(ops))}, how \in {R({"new", "inplace"})} :
          LET op == [op |-> o, p |-> IF o = "give" /\ ~st.ready THEN "T" ELSE p, par |-> q, j |-> Len(ops) + 1, how |-> how] IN
          /\ op.p \in Problems(c) /\ Can(c, st, op) /\ ops' = Append(ops, op) /\ st' = After(c, st, op) /\ UNCHANGED c
Emit == /\ c # <<>> /\ Runs = 3 /\ ops[Len(ops)].op = "run" /\ PrintT("GEN " \o ToJson([c |-> c, ops |-> ops]))
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<c, st>>
Spec == Init /\ [][Make \/ Act \/ Emit]_vars
=============================================================================
