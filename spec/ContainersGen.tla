---------------------------- MODULE ContainersGen ---------------------------
(* Random histories of operations on one container.                           *)
EXTENDS Containers, TLC, Json
CONSTANT Depth
VARIABLES kind, ops, s
vars == <<kind, ops, s>>
R(X) == RandomElement(X)
Wt(t) == t[R(DOMAIN t)]
Item(k) == IF R(1..4) = 1 THEN -R(1..4) ELSE R(1..6)
RSeq(k) == TLCEval([i \in 1..R(0..3) |-> Item(k + i)])
Init == kind \in {"materials", "traps", "exports", "derived"} /\ ops = <<>> /\ s = <<>>
Pick(k) == Wt(<<"append", "append", "insert", "set", "extend", "extend", "iadd", "iadd", "pop", "reverse", "clear", "new", "assign", "assign">>)
Next == /\ Len(ops) < Depth
        /\ \E o \in {Pick(Len(ops))} : \E as \in {Wt(<<"list", "list", "none", "one", "tuple", "gen", "same", "self", "str">>)} :
           \E xs \in {RSeq(Len(ops))}, one \in {Item(Len(ops))}, i \in {R(-3..3)} :
             LET op == [op |-> IF kind = "derived" /\ o = "assign" THEN "new" ELSE o, i |-> i,
                        as |-> IF o \in {"extend", "iadd"} THEN (IF as \in {"list", "tuple", "gen"} THEN as ELSE IF as = "same" /\ AllGood(xs) THEN as ELSE "list")
                               ELSE IF o = "new" \/ (kind = "derived" /\ o = "assign") THEN (IF as \in {"list", "none", "one", "tuple", "str"} THEN as ELSE "list")
                               ELSE IF o = "assign" THEN (IF as \in {"list", "none", "one", "tuple", "self", "str"} THEN as ELSE "list")
                               ELSE "list",
                        xs |-> IF o \in {"append", "insert", "set"} \/ (o \in {"new", "assign"} /\ as = "one")
                               THEN <<IF o # "append" /\ one = 5 THEN 4 ELSE one>>   \* object 5 may be a list itself (DerivedQuantities)
                               ELSE xs]
             IN  /\ ops' = Append(ops, op)
                 /\ \E q \in {R(Outcomes(s, op))} : s' = q.s
        /\ UNCHANGED kind
Emit == /\ Len(ops) = Depth /\ PrintT("GEN " \o ToJson([kind |-> kind, ops |-> ops])) /\ ops' = Append(ops, ops[1]) /\ UNCHANGED <<kind, s>>
Spec == Init /\ [][Next \/ Emit]_vars
=============================================================================
