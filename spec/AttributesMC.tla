---------------------------- MODULE AttributesMC ----------------------------
(* Exhaustive: whatever is assigned, an object holds only values it can use,  *)
(* and a refusal changes nothing.                                             *)
EXTENDS Attributes
VARIABLES c, obj, last
vars == <<c, obj, last>>
All(at) == Values(at)[1] \cup Values(at)[2]
First(at) == CHOOSE v \in Values(at)[1] : TRUE
Init == c \in Classes /\ obj = <<>> /\ last = "ok"
New == \E i \in DOMAIN Attrs(c) : \E v \in All(Attrs(c)[i]) :
          \E o \in Outcomes(c, obj, [op |-> "new", i |-> 0, vs |-> [j \in DOMAIN Attrs(c) |-> IF j = i THEN v ELSE First(Attrs(c)[j])]]) :
             obj' = o.obj /\ last' = o.res
Set == /\ obj # <<>>
       /\ \E i \in DOMAIN Attrs(c) : Attrs(c)[i].set /\ \E v \in All(Attrs(c)[i]) :
            \E o \in Outcomes(c, obj, [op |-> "set", i |-> i, vs |-> <<v>>]) : obj' = o.obj /\ last' = o.res
Next == (New \/ Set) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Usable == Sound(c, obj)
Decided == \A i \in DOMAIN Attrs(c) : Values(Attrs(c)[i])[1] \cap Values(Attrs(c)[i])[2] = {}
Unchanged == [][last' # "ok" => obj' = obj]_vars
=============================================================================
