--------------------------- MODULE ExportsTrace -----------------------------
(* Validation of recorded simulations with exports.  A trace has, for every   *)
(* accepted step, the time, the fields, and what each file contained after    *)
(* that step (times of its entries); and at the end the full contents.        *)
EXTENDS Derived, Exports, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, rec, disk, viol
tvars == <<tr, l, rec, disk, viol>>
Tr == Traces[tr]
C == Tr.cfg
X == Tr.exps
S(i) == Tr.states[i]
NS == Len(Tr.states)
Final == M(C.final)
Flag(name, ok) == IF ok THEN {} ELSE {[c |-> name, at |-> l]}
E(z) == [X[z] EXCEPT !.times = [i \in DOMAIN X[z].times |-> M(X[z].times[i])]]
NB == 20

TInit == tr \in 1..Len(Traces) /\ l = 0 /\ viol = {}
         /\ rec = [z \in DOMAIN Traces[tr].exps |-> <<>>] /\ disk = [z \in DOMAIN Traces[tr].exps |-> <<>>]

\* columns of a txt file carry a rounded time
HTol(e) == CASE e.hf = ".2e" -> 15000 [] e.hf = ".4e" -> 150 [] OTHER -> 600
EntryTime(z, got, i) == IF C.steady THEN got = -1 \/ got = 0
                        ELSE Abs(got - S(i).t) <= (IF X[z].kind = "txt" THEN HTol(X[z]) ELSE NB)
TimesOK(z, times, steps) ==
    /\ Len(times) = Len(steps)
    /\ \A i \in DOMAIN steps : EntryTime(z, times[i], steps[i])
\* after step n
StepClauses(n) ==
    LET s == S(n)
        r == [z \in DOMAIN X |-> RecAfter(E(z), rec[z], n, s.t, Final, C.steady)]
        d == [z \in DOMAIN X |-> DiskAfter(E(z), r[z], disk[z], n, s.t, Final, C.steady)]
    IN  UNION {Flag("C05." \o X[z].kind \o "_on_disk", TimesOK(z, s.obs[z], d[z])) : z \in DOMAIN X}

\* ---- contents
IsDG == C.chem \/ C.el = "DG"
\* values of field f at node i in state s: left and right limits
Limits(s, f, i) == (IF i > 1 THEN {FV(C, s, f, i - 1, 1)} ELSE {}) \cup (IF i <= Len(C.h) THEN {FV(C, s, f, i, 0)} ELSE {})
\* a file value v is close to one of a set; temperatures are in units of T0
Is(v, w) == Abs(v - w) <= 20 + Abs(w) \div 20000
IsOne(v, S0) == \E w \in S0 : Is(v, w)
Interface(i) == i > 1 /\ i <= Len(C.h) /\ CellMat(C, i - 1) # CellMat(C, i)
\* volumes of one material that touch have a border between them too
Border(i) == i > 1 /\ i <= Len(C.h) /\ C.cv[i - 1] # C.cv[i]
RowsAt(z, i) == {r \in DOMAIN Tr.out[z].x : Abs(Tr.out[z].x[r] - XNode(C, i)) <= NB}
Sorted(x) == \A i \in DOMAIN x : i = 1 \/ x[i - 1] <= x[i] + 1
TxtRows(z) ==
    /\ Sorted(Tr.out[z].x)
    /\ Len(Tr.out[z].x) = Cardinality(UNION {RowsAt(z, i) : i \in Nodes(C)})
    /\ \A i \in Nodes(C) :
         LET k == Cardinality(RowsAt(z, i))
             edge == i = 1 \/ i = Len(C.h) + 1
         IN  IF ~IsDG \/ edge THEN k = 1
             ELSE IF ~X[z].filt \/ Interface(i) THEN k = 2
             ELSE IF Border(i) THEN k \in {1, 2}
             ELSE k = 1
TxtCol(z, col, s) ==
    \A i \in Nodes(C) :
      LET rows == RowsAt(z, i) IN
      /\ \A r \in rows : IsOne(col[r], Limits(s, X[z].f, i))
      /\ Cardinality(rows) = 2 => \A w \in Limits(s, X[z].f, i) : \E r \in rows : Is(col[r], w)
\* xdmf: values per cell corner
\* density of trap k on cell e at corner a, at time t
DensAt(k, e, a, t) == LET p == C.traps[k] m == CellMat(C, e)
                      IN  IF TrapIn(p, m) THEN Lin(Par(p.n, p, m), XNode(C, e + a), t) ELSE 0
\* a file that is no checkpoint has one value per node: one of the two limits
DensLimits(k, i, t) == (IF i > 1 THEN {DensAt(k, i - 1, 1, t)} ELSE {}) \cup (IF i <= Len(C.h) THEN {DensAt(k, i, 0, t)} ELSE {})
XdmfCol(z, col, s) ==
    \A e \in Cells(C), a \in {0, 1} :
      IF X[z].trap > 0
      THEN IF C.el = "CG" /\ ~Tr.uniform[X[z].trap] THEN TRUE      \* a continuous projection of a jump
           ELSE IF X[z].ck THEN Is(col[e][a + 1], DensAt(X[z].trap, e, a, s.t))
           ELSE IsOne(col[e][a + 1], DensLimits(X[z].trap, e + a, s.t))
      ELSE IF X[z].ck THEN Is(col[e][a + 1], FV(C, s, X[z].f, e, a))
      ELSE IsOne(col[e][a + 1], Limits(s, X[z].f, e + a))
\* csv: one row per computed step: time, then the quantities (surface values)
CsvRow(z, row, s) ==
    \A k \in DOMAIN X[z].qs :
      Is(row[k + 1], FV(C, s, X[z].qs[k][2], IF X[z].qs[k][1] = 1 THEN 1 ELSE Len(C.h), IF X[z].qs[k][1] = 1 THEN 0 ELSE 1))
\* names
FName(f, fs) == CASE f = 100 -> "T" [] f = 200 -> "retention"
                  [] f = 0 -> IF fs = "solute" THEN "solute" ELSE "0"
                  [] OTHER -> ToString(TId(C, f))
LabelOK(z, got) ==
    IF X[z].label THEN got = "lab"
    ELSE IF X[z].trap > 0 THEN TRUE
    ELSE CASE X[z].f = 100 -> got = "temperature"
           [] X[z].f = 200 -> got = "retention"
           [] X[z].f = 0 -> X[z].fs # "solute" \/ got = "mobile_concentration"
           [] OTHER -> got = "trap_" \o ToString(TId(C, X[z].f)) \o "_concentration"
HeaderOK(z, h) ==
    /\ Len(h) = 1 + Len(X[z].qs) /\ h[1] = "t(s)"
    /\ \A k \in DOMAIN X[z].qs :
         h[k + 1] = "Average " \o FName(X[z].qs[k][2], X[z].fs) \o " surface " \o ToString(X[z].qs[k][1])
                    \o (IF X[z].label THEN (IF X[z].qs[k][2] = 100 THEN " (K)" ELSE " (H m-3)") ELSE "")
EndClauses ==
    Flag("run_failed", Tr.end \in {"ok", "diverged"})
    \cup IF Tr.end # "ok" THEN {} ELSE
    UNION {
      LET o == Tr.out[z] IN
      Flag("C05.final_file", TimesOK(z, o.t, disk[z]))
      \cup (IF X[z].kind = "dq" THEN Flag("C05.computed", TimesOK(z, o.mem, rec[z])) ELSE {})
      \cup (IF Len(o.t) # Len(disk[z]) \/ disk[z] = <<>> THEN {} ELSE
            CASE X[z].kind = "txt" -> Flag("C06.txt_rows", TxtRows(z))
                   \cup Flag("C06.txt_columns", Len(o.cols) = Len(disk[z]) /\ (TxtRows(z) => \A i \in DOMAIN o.cols : TxtCol(z, o.cols[i], S(disk[z][i]))))
              [] X[z].kind = "xdmf" -> Flag("C06.xdmf_values", Len(o.cols) = Len(disk[z]) /\ \A i \in DOMAIN o.cols : XdmfCol(z, o.cols[i], S(disk[z][i])))
                   \cup Flag("C06.xdmf_label", \A i \in DOMAIN o.labels : LabelOK(z, o.labels[i]))
                   \* extract_xdmf_times and extract_xdmf_labels
                   \cup Flag("C06.xdmf_helpers", o.htimes = o.t /\ Len(o.hlabels) = 1 /\ LabelOK(z, o.hlabels[1]))
              [] OTHER -> Flag("C06.csv_header", HeaderOK(z, o.header))
                   \cup Flag("C06.csv_rows", Len(o.cols) = Len(disk[z]) /\ \A i \in DOMAIN o.cols : Len(o.cols[i]) = 1 + Len(X[z].qs) /\ CsvRow(z, o.cols[i], S(disk[z][i]))))
      : z \in DOMAIN X}

Step == /\ l <= NS
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ IF l = 0 THEN UNCHANGED <<rec, disk, viol>>
           ELSE LET s == S(l) IN
                /\ rec' = [z \in DOMAIN X |-> RecAfter(E(z), rec[z], l, s.t, Final, C.steady)]
                /\ disk' = [z \in DOMAIN X |-> DiskAfter(E(z), rec'[z], disk[z], l, s.t, Final, C.steady)]
                /\ viol' = viol \cup StepClauses(l)
Verdict == /\ l = NS + 1 /\ l' = l + 1
           /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> NS, viol |-> viol \cup EndClauses]))
           /\ UNCHANGED <<tr, rec, disk, viol>>
TNext == Step \/ Verdict
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
