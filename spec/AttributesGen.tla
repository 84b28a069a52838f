---------------------------- MODULE AttributesGen ---------------------------
(* Random histories of construction and assignment.                           *)
EXTENDS Attributes, TLC, Json
CONSTANT Depth
VARIABLES c, ops, obj
vars == <<c, ops, obj>>
R(X) == RandomElement(X)
Pick(at) == IF R(1..3) = 1 THEN R(Values(at)[2]) ELSE R(Values(at)[1])
Mostly(at) == IF R(1..6) = 1 THEN R(Values(at)[2]) ELSE R(Values(at)[1])
Init == c \in Classes /\ ops = <<>> /\ obj = <<>>
Settable == {i \in DOMAIN Attrs(c) : Attrs(c)[i].set}
New(n) == [op |-> "new", i |-> 0, vs |-> TLCEval([j \in DOMAIN Attrs(c) |-> Mostly(Attrs(c)[j])])]
Set(n) == LET i == R(Settable) IN [op |-> "set", i |-> i, vs |-> <<Pick(Attrs(c)[i])>>]
Next == /\ Len(ops) < Depth
        /\ \E op \in {IF obj = <<>> \/ Settable = {} \/ R(1..6) = 1 THEN New(Len(ops)) ELSE TLCEval(Set(Len(ops)))} :
             /\ ops' = Append(ops, op)
             /\ \E o \in {R(Outcomes(c, obj, op))} : obj' = o.obj
        /\ UNCHANGED c
Emit == /\ Len(ops) = Depth
        /\ PrintT("GEN " \o ToJson([c |-> c, attrs |-> Attrs(c), ops |-> ops])) /\ ops' = Append(ops, ops[1]) /\ UNCHANGED <<c, obj>>
Spec == Init /\ [][Next \/ Emit]_vars
=============================================================================
