----------------------------- MODULE SessionMC ------------------------------
(* The design: initialise() rebuilds every derived object from the           *)
(* configuration, run() only reads derived objects (and advances them).      *)
(* Two simulations, possibly sharing objects, two-valued parts.              *)
EXTENDS Session, TLC
CONSTANT MaxOps
P == {"mesh", "mats", "temp", "traps", "time"}
VARIABLES cur, der, st, n, res
vars == <<cur, der, st, n, res>>
\* objects: simulation s uses object Own(s, p) for part p
Own(s, p) == IF st.shared THEN <<1, p>> ELSE <<s, p>>
Objs == {1, 2} \X P
Init == /\ cur = [o \in Objs |-> 0] /\ der = [o \in Objs |-> [of |-> 0, t |-> 0]] /\ st = Start /\ n = 0
        /\ res = <<[p \in P |-> [of |-> 0, t |-> 0]], [p \in P |-> [of |-> 0, t |-> 0]]>>
Edit(s, p) == /\ CanEdit(st, s) /\ cur' = [cur EXCEPT ![Own(s, p)] = 1 - @] /\ UNCHANGED <<der, st, res>>
Initialise(s) == /\ CanInit(st, s) /\ der' = [o \in Objs |-> IF \E p \in P : o = Own(s, p) THEN [of |-> cur[o], t |-> 0] ELSE der[o]]
                 /\ st' = After(st, [op |-> "init", s |-> s]) /\ UNCHANGED <<cur, res>>
\* the outcome of a run is what its derived objects say; they end at t = 1
Go(s) == /\ CanGo(st, s) /\ res' = [res EXCEPT ![s] = [p \in P |-> der[Own(s, p)]]]
         /\ der' = [o \in Objs |-> IF \E p \in P : o = Own(s, p) THEN [der[o] EXCEPT !.t = 1] ELSE der[o]]
         /\ st' = After(st, [op |-> "go", s |-> s]) /\ UNCHANGED cur
\* an interrupted run: its objects are left anywhere
Stop(s) == /\ CanStop(st, s)
           /\ der' = [o \in Objs |-> IF \E p \in P : o = Own(s, p) THEN [der[o] EXCEPT !.t = 2] ELSE der[o]]
           /\ st' = After(st, [op |-> "stop", s |-> s]) /\ UNCHANGED <<cur, res>>
New(sh) == /\ CanNew(st, sh) /\ st' = After(st, [op |-> "new", share |-> sh]) /\ UNCHANGED <<cur, der, res>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E s \in {1, 2}, p \in P : Edit(s, p)
           \/ \E s \in {1, 2} : Initialise(s) \/ Go(s) \/ Stop(s)
           \/ \E sh \in BOOLEAN : New(sh)
Spec == Init /\ [][Next]_vars
\* right after a run the outcome is that of the configuration, from time zero
Function == [][\A s \in {1, 2} : Go(s) => \A p \in P : res'[s][p] = [of |-> cur[Own(s, p)], t |-> 0]]_vars
=============================================================================
