----------------------------- MODULE ExportsMC ------------------------------
(* The export schedule on its own: any sequence of step sizes that hits the  *)
(* requested times, any export.                                              *)
EXTENDS Exports, TLC
CONSTANT Final
VARIABLES e, n, t, rec, disk, run
vars == <<e, n, t, rec, disk, run>>
X(k) == [kind |-> k, every |-> 1, wr |-> 0, all |-> TRUE, times |-> <<>>, late |-> FALSE, named |-> TRUE]
TimeLists == {<<2>>, <<1, 3>>, <<3, Final>>, <<2, Final + 3>>, <<Final>>}
Exps == {[X("dq") EXCEPT !.every = v, !.wr = w, !.named = m] : v \in 1..4, w \in 0..4, m \in BOOLEAN}
        \cup {[X("xdmf") EXCEPT !.every = v] : v \in 0..4}
        \cup {[X("txt") EXCEPT !.late = l] : l \in BOOLEAN}
        \cup {[X("txt") EXCEPT !.late = l, !.all = FALSE, !.times = ts] : l \in BOOLEAN, ts \in TimeLists}
Init == e \in Exps /\ n = 0 /\ t = 0 /\ rec = <<>> /\ disk = <<>> /\ run = 1
Hits(a, b) == ~e.all => \A i \in DOMAIN e.times : ~(a < e.times[i] /\ e.times[i] < b)
Accept(d) ==
    /\ t < Final /\ t + d <= Final /\ Hits(t, t + d)
    /\ n' = n + 1 /\ t' = t + d
    /\ rec' = RecAfter(e, rec, n + 1, t + d, Final, FALSE)
    /\ disk' = DiskAfter(e, rec', disk, n + 1, t + d, Final, FALSE)
    /\ UNCHANGED <<e, run>>
\* initialise(): a new run starts from nothing
Again == t = Final /\ run = 1 /\ run' = 2 /\ n' = 0 /\ t' = 0 /\ rec' = <<>> /\ disk' = <<>> /\ UNCHANGED e
Next == (\E d \in 1..Final : Accept(d)) \/ Again
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in DOMAIN s}
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
DiskWithinRec == Prefix(disk, rec)
Increasing == \A i, j \in DOMAIN rec : i < j => rec[i] < rec[j]
NoLateStep == \A i \in DOMAIN rec : rec[i] <= n
\* what the user gets in the end
Complete == t = Final =>
    /\ (e.kind = "xdmf" /\ e.every = 0 => disk = <<n>>)
    /\ (e.kind = "xdmf" /\ e.every = 1 => Len(disk) = n)
    /\ (e.kind = "dq" /\ e.wr = 0 /\ e.named => disk = rec)
    /\ (e.kind = "txt" /\ (~e.late \/ e.all \/ LastTime(e) <= Final) => disk = rec)
    /\ (e.kind = "txt" /\ ~e.all => Len(rec) = Cardinality({i \in DOMAIN e.times : e.times[i] <= Final}))
    /\ (e.kind = "dq" => Len(rec) = (n + e.every - 1) \div e.every)
=============================================================================
