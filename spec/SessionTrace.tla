---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions.  Every run must give what a simulation built from       *)
(* scratch with the configuration in force gives (refs: such runs, made in    *)
(* other processes).                                                          *)
EXTENDS Session, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st, cur, caux, viol
tvars == <<tr, l, st, cur, caux, viol>>
Tr == Traces[tr]
Ev == Tr.ops
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ viol = {} /\ st = Start
         /\ cur = <<Traces[tr].c1, Traces[tr].c1>> /\ caux = <<Traces[tr].a1, Traces[tr].a1>>
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
SAbs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == SAbs(a - b) <= 5 + SAbs(b) \div 500000
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])
SameAll(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameVec(a[i], b[i])
Ref(c, a) == CHOOSE r \in Ran(Tr.refs) : r.cfg = c /\ r.aux = a
HasRef(c, a) == \E r \in Ran(Tr.refs) : r.cfg = c /\ r.aux = a
GoClauses(op) ==
    LET c == cur[op.s] a == caux[op.s] IN
    Flag("no_reference", HasRef(c, a))
    \cup IF ~HasRef(c, a) THEN {} ELSE
    LET r == Ref(c, a) g == op.got IN
    Flag("outcome", g.end = r.end)
    \cup IF g.end # r.end \/ g.end # "ok" THEN {} ELSE
    Flag("times", Len(g.vecs) = Len(r.vecs) /\ \A i \in DOMAIN g.vecs : Close(g.vecs[i][1], r.vecs[i][1]))
    \cup Flag("fields", SameAll(g.vecs, r.vecs))
    \cup Flag("quantities", SameAll(g.quants, r.quants))
    \cup Flag("files", SameAll(g.files, r.files))
Step ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED tr
    /\ LET op == Ev[l + 1] IN
       /\ st' = After(st, op)
       /\ cur' = (CASE op.op = "edit" -> [cur EXCEPT ![op.s] = Apply(@, op.part, Tr.c2)]
                    [] op.op = "new" /\ op.share -> <<cur[1], cur[1]>>
                    [] op.op = "new" -> <<cur[1], Tr.c2>>
                    [] OTHER -> cur)
       /\ caux' = (CASE op.op = "edit" -> [caux EXCEPT ![op.s] = ApplyAux(@, op.part, Tr.a2)]
                     [] op.op = "new" /\ op.share -> <<caux[1], caux[1]>>
                     [] op.op = "new" -> <<caux[1], Tr.a2>>
                     [] OTHER -> caux)
       /\ viol' = viol \cup Flag("protocol", CASE op.op = "edit" -> CanEdit(st, op.s) [] op.op = "init" -> CanInit(st, op.s)
                                               [] op.op = "go" -> CanGo(st, op.s) [] op.op = "stop" -> CanStop(st, op.s) [] OTHER -> CanNew(st, op.share))
                       \cup (IF op.op = "go" THEN GoClauses(op) ELSE {})
Verdict == /\ l = Len(Ev) /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Ev), viol |-> viol \cup Flag("session_failed", Tr.end = "ok")]))
           /\ UNCHANGED <<tr, st, cur, caux, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
