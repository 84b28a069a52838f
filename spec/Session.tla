------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A Python session: one or two Simulation objects that are edited,        *)
(* initialised and run again and again.                                    *)
(*                                                                         *)
(* The configuration of a simulation is everything the user set (a record  *)
(* as in TransportGen).  Edits replace one part of it.  The guarantee is   *)
(* that the outcome of a run is a function of the configuration alone:     *)
(* whatever happened before - earlier runs, other simulations, shared      *)
(* objects - leaves no trace.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Parts == {"none", "all", "mats", "temp", "traps", "bcs", "srcs", "ics", "dqs", "time", "steady", "transient", "soret", "el", "chem", "swap", "drop", "mesh", "txt", "exps"}
\* c: configuration, a: its numerical settings, o/oa: another one to take parts from
Apply(c, part, o) ==
    CASE part = "none" -> c
      [] part = "all" -> o
      [] part = "mats" -> [c EXCEPT !.mats = o.mats]
      [] part = "temp" -> [c EXCEPT !.temp = o.temp]
      [] part = "traps" -> [c EXCEPT !.traps = o.traps]
      [] part = "bcs" -> [c EXCEPT !.bcs = o.bcs]
      [] part = "srcs" -> [c EXCEPT !.srcs = o.srcs]
      [] part = "ics" -> [c EXCEPT !.ics = o.ics]
      [] part = "dqs" -> [c EXCEPT !.dqs = o.dqs]
      [] part = "time" -> [c EXCEPT !.final = o.final]
      [] part = "steady" -> [c EXCEPT !.steady = TRUE, !.final = 0]
      [] part = "transient" -> [c EXCEPT !.steady = FALSE, !.final = 2000]
      [] part = "soret" -> [c EXCEPT !.soret = ~c.soret]
      [] part = "el" -> [c EXCEPT !.el = IF c.el = "CG" THEN "DG" ELSE "CG"]
      [] part = "chem" -> [c EXCEPT !.chem = ~c.chem]
      \* the same traps in another order, or without the first: ids are positions
      [] part = "swap" -> [c EXCEPT !.traps = [i \in DOMAIN c.traps |-> c.traps[Len(c.traps) + 1 - i]]]
      [] part = "drop" -> [c EXCEPT !.traps = IF c.traps = <<>> THEN <<>> ELSE Tail(c.traps)]
      \* one more vertex, in the middle of the last cell
      [] part = "mesh" -> LET n == Len(c.h) IN
                          [c EXCEPT !.h = SubSeq(@, 1, n - 1) \o <<@[n] \div 2, @[n] \div 2>>, !.cv = Append(@, @[n])]
      [] part \in {"txt", "exps"} -> c
ApplyAux(a, part, oa) ==
    CASE part = "all" -> oa
      [] part = "time" -> [a EXCEPT !.dt = oa.dt, !.ratio = oa.ratio]
      [] part = "txt" -> [a EXCEPT !.txt = oa.txt]
      [] part = "exps" -> [a EXCEPT !.ex = oa.ex]
      [] OTHER -> a

\* configurations worth running
Ran(s) == {s[i] : i \in DOMAIN s}
MVols(c) == UNION {Ran(c.mats[m].ids) : m \in DOMAIN c.mats}
Ntr(c) == Len(c.traps)
FieldOK(c, f) == f \in {-1, 0, 200} \cup (1..Ntr(c)) \/ (f = 100)
HeatModel(c) == c.temp.kind \in {"transient", "steady"}
SKS(c) == UNION {Ran(c.bcs[b].surf) : b \in {b \in DOMAIN c.bcs : c.bcs[b].kind = "sk"}}
Dirs == {"dc", "customd", "sieverts", "henrys", "imp"}
Henry(c) == c.chem /\ \E m \in DOMAIN c.mats : c.mats[m].law = "henry"
Valid(c) ==
    /\ MVols(c) = Ran(c.cv)
    /\ \A t \in Ran(c.traps) : \A m \in Ran(t.mats) : m \in DOMAIN c.mats
    /\ \A b \in Ran(c.bcs) : FieldOK(c, b.f) /\ (b.f = 100 => HeatModel(c)) /\ (b.f > 0 /\ b.f < 100 => c.el = "CG")
    /\ \A q \in Ran(c.srcs) : FieldOK(c, q.f) /\ Ran(q.vols) \subseteq MVols(c) /\ (q.f = 100 => HeatModel(c))
    /\ \A i \in Ran(c.ics) : FieldOK(c, i.f)
    /\ \A q \in Ran(c.dqs) : /\ FieldOK(c, q.f) /\ q.x[1] <= Len(c.h)
                             /\ (q.k \in {"totvol", "avgvol", "maxvol", "minvol"} => q.id \in MVols(c))
                             /\ (q.k = "ads" => q.id \in SKS(c)) /\ (q.k = "flux" /\ q.f = 100 => HeatModel(c))
    /\ c.temp.kind = "steady" => \E b \in Ran(c.bcs) : b.f = 100 /\ b.kind \in {"dc", "conv"}
    /\ c.steady => /\ c.temp.kind # "transient" /\ \E b \in Ran(c.bcs) : b.f = 0 /\ b.kind \in Dirs
                   /\ SKS(c) = {} /\ \A t \in Ran(c.traps) : t.kind = "trap"
    /\ Henry(c) => c.traps = <<>> /\ c.ics # <<>>
    /\ c.el = "DG" => c.traps # <<>>
    /\ c.steady <=> c.final = 0

(***************************************************************************)
(* The protocol: Edit, Init, Go (or Stop: an interrupted run) on simulations 1 and 2; a second           *)
(* simulation may be built from the objects of the first (shared), and     *)
(* then the two are not interleaved.                                       *)
(*   cur  configuration;  ini  "no" | "ready" | "done"                     *)
(***************************************************************************)
Start == [exists |-> <<TRUE, FALSE>>, ini |-> <<"no", "no">>, shared |-> FALSE]
Other(s) == 3 - s
CanEdit(st, s) == st.exists[s] /\ st.ini[s] # "ready" /\ (st.shared => st.ini[Other(s)] # "ready")
CanInit(st, s) == st.exists[s] /\ st.ini[s] # "ready" /\ (st.shared => st.ini[Other(s)] # "ready")
CanGo(st, s) == st.exists[s] /\ st.ini[s] = "ready"
\* a run interrupted (by an error, by the user) is over like one that ended
CanStop(st, s) == CanGo(st, s)
CanNew(st, share) == ~st.exists[2] /\ (share => st.ini[1] # "ready")
After(st, op) ==
    CASE op.op = "edit" -> st
      [] op.op = "init" -> [st EXCEPT !.ini[op.s] = "ready"]
      [] op.op \in {"go", "stop"} -> [st EXCEPT !.ini[op.s] = "done"]
      [] op.op = "new" -> [st EXCEPT !.exists[2] = TRUE, !.shared = op.share]
=============================================================================
