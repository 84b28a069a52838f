------------------------------- MODULE Plane --------------------------------
(***************************************************************************)
(* Transport on triangles (dim 2) and tetrahedra (dim 3).                  *)
(*                                                                         *)
(* A configuration c is one of Transport with                              *)
(*   dim, xs (node -> coordinates), cells (sequence of node tuples),       *)
(*   cv (volume of each cell), facets ([cell, opp, id]: the facet of the   *)
(*   cell opposite to its corner opp lies on the boundary with mark id,    *)
(*   0 when unmarked)                                                      *)
(* and linear functions <<const, x, t, y, z>>.  A state has u and T per    *)
(* node and tr[k], c per cell and corner.  geo is "cartesian" or, for      *)
(* dim 2, "cylindrical" (x is the radius).                                 *)
(***************************************************************************)
EXTENDS Transport, TLC
\* function values are lazy in TLC: evaluate them once
V(x) == TLCEval(x)

PCells(c) == DOMAIN c.cells
PNodes(c) == DOMAIN c.xs
Corners(c) == 1..(c.dim + 1)
RECURSIVE SumFun(_, _)
SumFun(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumFun(f, n - 1)

-----------------------------------------------------------------------------
(* quadrature: barycentric points and weights of a simplex *)
Perm3(a, b) == <<<<a, b, b>>, <<b, a, b>>, <<b, b, a>>>>
TriPts == Perm3(108103, 445948) \o Perm3(816848, 91576)
TriW == <<223382, 223382, 223382, 109952, 109952, 109952>>
Perm4(a, b) == <<<<a, b, b, b>>, <<b, a, b, b>>, <<b, b, a, b>>, <<b, b, b, a>>>>
TetPts == Perm4(67342, 310886) \o Perm4(721794, 92735)
          \o <<<<454496, 454496, 45504, 45504>>, <<454496, 45504, 454496, 45504>>, <<454496, 45504, 45504, 454496>>,
               <<45504, 454496, 454496, 45504>>, <<45504, 454496, 45504, 454496>>, <<45504, 45504, 454496, 454496>>>>
TetW == [i \in 1..14 |-> IF i <= 4 THEN 112688 ELSE IF i <= 8 THEN 73493 ELSE 42546]
SegPts == <<<<887298, 112702>>, <<500000, 500000>>, <<112702, 887298>>>>
SegW == <<277778, 444444, 277778>>
Pts(d) == CASE d = 1 -> SegPts [] d = 2 -> TriPts [] d = 3 -> TetPts
Wts(d) == CASE d = 1 -> SegW [] d = 2 -> TriW [] d = 3 -> TetW
\* values at the points from values at the corners
At(d, vals) == LET w == V(vals) IN V([g \in DOMAIN Pts(d) |-> SumFun(V([a \in 1..(d + 1) |-> Mul(Pts(d)[g][a], w[a])]), d + 1)])
\* mean over the simplex
Mean(d, v) == SumFun(V([g \in DOMAIN Pts(d) |-> Mul(Wts(d)[g], v[g])]), Len(Pts(d)))

-----------------------------------------------------------------------------
(* geometry of a cell *)
X(c, i) == V([d \in 1..c.dim |-> M(c.xs[i][d])])
Minus(a, b) == V([d \in DOMAIN a |-> a[d] - b[d]])
Dot(a, b) == SumFun(V([d \in DOMAIN a |-> Mul(a[d], b[d])]), Len(a))
Scale(k, a) == V([d \in DOMAIN a |-> Mul(k, a[d])])
Cross(a, b) == <<Mul(a[2], b[3]) - Mul(a[3], b[2]), Mul(a[3], b[1]) - Mul(a[1], b[3]), Mul(a[1], b[2]) - Mul(a[2], b[1])>>
Others(c, a) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : k <= c.dim + 1 /\ k # a)
\* a normal of the facet opposite to corner a, as long as the facet is large
\* (twice as long for triangular facets)
OppNormal(c, e, a) ==
    LET o == Others(c, a)
        p(k) == X(c, c.cells[e][o[k]])
    IN  IF c.dim = 2 THEN LET w == Minus(p(2), p(1)) IN <<-w[2], w[1]>>
        ELSE Cross(Minus(p(2), p(1)), Minus(p(3), p(1)))
\* gradient of the hat of corner a
Grad(c, e, a) ==
    LET n == OppNormal(c, e, a)
        w == Dot(n, Minus(X(c, c.cells[e][a]), X(c, c.cells[e][Others(c, a)[1]])))
    IN  V([d \in 1..c.dim |-> Div(n[d], w)])
Vol(c, e) ==
    LET w == Abs(Dot(OppNormal(c, e, 1), Minus(X(c, c.cells[e][1]), X(c, c.cells[e][2]))))
    IN  DivI(w, IF c.dim = 2 THEN 2 ELSE 6)
\* size of a facet
FSize(c, ft) == LET n == OppNormal(c, ft.cell, ft.opp) s == Sqrt(Dot(n, n)) IN IF c.dim = 2 THEN s ELSE DivI(s, 2)
\* outward normal times the size
FNormal(c, ft) == LET v == Vol(c, ft.cell) gr == Grad(c, ft.cell, ft.opp) IN V([d \in 1..c.dim |-> -c.dim * Mul(v, gr[d])])

PMat(c, e) == MatOfVol(c, c.cv[e])
PLin(f, x, t) == M(f[1]) + Mul(M(f[2]), x[1]) + Mul(M(f[3]), t)
                 + (IF f[4] = 0 THEN 0 ELSE Mul(M(f[4]), x[2]))
                 + (IF Len(x) < 3 \/ f[5] = 0 THEN 0 ELSE Mul(M(f[5]), x[3]))
\* nodal values of cell e
CV(c, v, e) == [a \in Corners(c) |-> v[c.cells[e][a]]]
CLin(c, f, e, t) == [a \in Corners(c) |-> PLin(f, X(c, c.cells[e][a]), t)]
GradOf(c, e, vals) == LET w == V(vals) gr == V([a \in Corners(c) |-> Grad(c, e, a)])
                      IN  V([d \in 1..c.dim |-> SumFun(V([a \in Corners(c) |-> Mul(w[a], gr[a][d])]), c.dim + 1)])

-----------------------------------------------------------------------------
(* what all corners of a cell share; the balances are built from it *)
Ctx(c, p, s, e) ==
    LET d == c.dim
        mat == c.mats[PMat(c, e)]
        T == At(d, CV(c, s.T, e))
        Tp == At(d, CV(c, p.T, e))
        dT == GradOf(c, e, CV(c, s.T, e))
        u == At(d, CV(c, s.u, e))
        du == GradOf(c, e, CV(c, s.u, e))
        up == At(d, CV(c, p.u, e))
        G == DOMAIN Pts(d)
    IN  V([vol |-> Vol(c, e), T |-> T, Tp |-> Tp, dT |-> dT,
         cc |-> [g \in G |-> Conc(c, mat, u[g], T[g])],
         cp |-> [g \in G |-> Conc(c, mat, up[g], Tp[g])],
         dc |-> [g \in G |-> [z \in 1..d |-> ConcSlope(c, mat, u[g], du[z], T[g], dT[z])]],
         D |-> [g \in G |-> Arr(mat.D, mat.jD, T[g])],
         r |-> At(d, [a \in Corners(c) |-> X(c, c.cells[e][a])[1]]),
         grad |-> [a \in Corners(c) |-> Grad(c, e, a)]])
\* gradient of the test function in the coordinate system
TSlope(c, k, a, g) ==
    IF c.geo = "cartesian" THEN k.grad[a]
    ELSE [k.grad[a] EXCEPT ![1] = @ - Div(Pts(c.dim)[g][a], k.r[g])]

PTrapDens(c, s, k, e) == LET tr == c.traps[k] IN At(c.dim, CLin(c, Par(tr.n, tr, PMat(c, e)), e, s.t))
PExch(c, s, K, k, e) ==
    LET tr == c.traps[k]
        m == PMat(c, e)
        ct == At(c.dim, s.tr[k][e])
        n == PTrapDens(c, s, k, e)
    IN  V([g \in DOMAIN Pts(c.dim) |->
           Mul3(Arr(Par(tr.k, tr, m), Par(tr.jk, tr, m), K.T[g]), K.cc[g], n[g] - ct[g])
           - Mul(Arr(Par(tr.p, tr, m), Par(tr.jp, tr, m), K.T[g]), ct[g])])

\* terms of the balance of field fld in cell e against the hats of its corners
PCellTerms(c, p, s, fld, e) ==
    LET d == c.dim
        G == DOMAIN Pts(d)
        m == PMat(c, e)
        mat == c.mats[m]
        K == Ctx(c, p, s, e)
        idt == Div(One, s.t - p.t)
        conc == IF fld = 0 THEN K.cc ELSE At(d, s.tr[fld][e])
        mine == {k \in DOMAIN c.traps : TrapIn(c.traps[k], m)}
        exch == V([k \in DOMAIN c.traps |-> IF k \in mine THEN PExch(c, s, K, k, e) ELSE [g \in G |-> 0]])
        cn == IF fld = 0 THEN K.cp ELSE At(d, p.tr[fld][e])
        src == [q \in DOMAIN c.srcs |->
                  IF ~InVol(c.srcs[q], c.cv[e]) \/ ~(c.srcs[q].f = fld \/ c.srcs[q].f = -1) THEN [g \in G |-> 0]
                  ELSE IF c.srcs[q].kind = "decay" THEN [g \in G |-> Mul(M(c.srcs[q].a[1]), conc[g])]
                  ELSE LET v == At(d, CLin(c, c.srcs[q].a, e, s.t)) IN [g \in G |-> -v[g]]]
        \* scalar densities, to be tested with the hats
        dens == V((IF c.steady THEN (IF fld # 0 /\ fld \notin mine THEN <<conc>> ELSE <<>>)
                 ELSE <<[g \in G |-> Mul(conc[g] - cn[g], idt)]>>)
                \o (IF fld = 0 THEN exch
                    ELSE IF fld \in mine THEN <<[g \in G |-> -exch[fld][g]]>> ELSE <<>>)
                \o src)
        sor == [g \in G |-> Div(Div(Mul(TProp(mat.Q, K.T[g]), K.cc[g]), K.T[g]), K.T[g])]
        flux == V(IF fld # 0 THEN <<>>
                ELSE <<[g \in G |-> Scale(K.D[g], K.dc[g])]>>
                     \o (IF c.soret THEN <<[g \in G |-> Scale(Mul(K.D[g], sor[g]), K.dT)]>> ELSE <<>>))
    IN  [a \in Corners(c) |->
           [z \in DOMAIN dens |-> Mul(K.vol, Mean(d, [g \in G |-> Mul(dens[z][g], Pts(d)[g][a])]))]
           \o [z \in DOMAIN flux |-> Mul(K.vol, Mean(d, [g \in G |-> Dot(flux[z][g], TSlope(c, K, a, g))]))]]

PHeatTerms(c, p, s, e) ==
    LET d == c.dim
        G == DOMAIN Pts(d)
        mat == c.mats[PMat(c, e)]
        time == IF c.temp.kind = "steady" THEN 0 ELSE s.t
        T == At(d, CV(c, s.T, e))
        Tp == At(d, CV(c, p.T, e))
        dT == GradOf(c, e, CV(c, s.T, e))
        vol == Vol(c, e)
        K == V([r |-> At(d, [a \in Corners(c) |-> X(c, c.cells[e][a])[1]]), grad |-> [a \in Corners(c) |-> Grad(c, e, a)]])
        dens == V((IF c.temp.kind = "steady" THEN <<>>
                 ELSE <<[g \in G |-> Mul(Mul(TProp(mat.rho, T[g]), TProp(mat.cp, T[g])), Mul(T[g] - Tp[g], Div(One, s.t - p.t)))]>>)
                \o [q \in DOMAIN c.srcs |->
                      IF c.srcs[q].f = 100 /\ InVol(c.srcs[q], c.cv[e])
                      THEN LET v == At(d, CLin(c, c.srcs[q].a, e, time)) IN [g \in G |-> -v[g]] ELSE [g \in G |-> 0]])
    IN  [a \in Corners(c) |->
           [z \in DOMAIN dens |-> Mul(vol, Mean(d, [g \in G |-> Mul(dens[z][g], Pts(d)[g][a])]))]
           \o <<Mul(vol, Mean(d, [g \in G |-> Mul(TProp(mat.k, T[g]), Dot(dT, TSlope(c, K, a, g)))]))>>]

-----------------------------------------------------------------------------
(* boundary *)
FNodes(c, ft) == [z \in 1..c.dim |-> c.cells[ft.cell][Others(c, ft.opp)[z]]]
\* facets seen by condition b
BFacets(c, b) == {z \in DOMAIN c.facets : c.facets[z].id # 0 /\ InSeq(c.facets[z].id, c.bcs[b].surf)}
PDirsAt(c, fld, i) == {b \in DOMAIN c.bcs : c.bcs[b].f = fld /\ c.bcs[b].kind \in DirKinds
                          /\ \E z \in BFacets(c, b) : InSeq(i, FNodes(c, c.facets[z]))}
\* concentration at the corner of a cell
PConcAt(c, s, e, i) == Conc(c, c.mats[PMat(c, e)], s.u[i], s.T[i])

\* density of the hydrogen leaving through condition q, at the points of a facet
PFluxDens(c, s, q, ft) ==
    LET d == c.dim - 1
        ns == FNodes(c, ft)
        mat == c.mats[PMat(c, ft.cell)]
        T == At(d, [z \in DOMAIN ns |-> s.T[ns[z]]])
        u == At(d, [z \in DOMAIN ns |-> s.u[ns[z]]])
        lin == At(d, [z \in DOMAIN ns |-> PLin(q.a, X(c, ns[z]), s.t)])
    IN  [g \in DOMAIN Pts(d) |->
          LET cm == Conc(c, mat, u[g], T[g]) IN
          CASE q.kind = "flux" -> <<-lin[g]>>
            [] q.kind = "recomb" -> <<Mul(ArrT(q, T[g], s.t), PowFix(cm, q.order))>>
            [] q.kind = "dissoc" -> <<-Mul(ArrT(q, T[g], s.t), lin[g])>>
            [] q.kind = "mass" -> LET h == M(q.k) + Mul(M(q.kt), s.t) IN <<Mul(h, cm), -Mul(h, lin[g])>>
            [] q.kind = "customf" -> <<Mul3(M(q.k) + Mul(M(q.kt), s.t), cm, T[g]), -lin[g]>>
            [] OTHER -> <<>>]
PHeatDens(c, s, q, ft) ==
    LET d == c.dim - 1
        ns == FNodes(c, ft)
        time == IF c.temp.kind = "steady" THEN 0 ELSE s.t
        T == At(d, [z \in DOMAIN ns |-> s.T[ns[z]]])
        lin == At(d, [z \in DOMAIN ns |-> PLin(q.a, X(c, ns[z]), time)])
    IN  [g \in DOMAIN Pts(d) |->
          CASE q.kind = "flux" -> <<-lin[g]>>
            [] q.kind = "conv" -> LET hc == M(q.k) + Mul(M(q.kt), time) IN <<Mul(hc, T[g]), -Mul(hc, lin[g])>>
            [] q.kind = "customt" -> <<Mul(M(q.k), T[g]), -lin[g]>>
            [] OTHER -> <<>>]
\* all boundary terms: [n |-> node, v |-> terms]
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o SeqOfSet(S \ {m})
PBoundary(c, s, fld) ==
    ConcatAll([b \in DOMAIN c.bcs |->
      IF c.bcs[b].f # fld \/ c.bcs[b].kind \in DirKinds THEN <<>>
      ELSE LET fs == SeqOfSet(BFacets(c, b)) IN
        ConcatAll([z \in DOMAIN fs |->
          LET ft == c.facets[fs[z]]
              size == FSize(c, ft)
              dens == V(IF fld = 100 THEN PHeatDens(c, s, c.bcs[b], ft) ELSE PFluxDens(c, s, c.bcs[b], ft))
              ns == FNodes(c, ft)
          IN  [k \in DOMAIN ns |->
                 [n |-> ns[k], v |-> [y \in DOMAIN dens[1] |->
                    Mul(size, Mean(c.dim - 1, [g \in DOMAIN dens |-> Mul(dens[g][y], Pts(c.dim - 1)[g][k])]))]]]])])

-----------------------------------------------------------------------------
(* assembly: cells[e][a] and boundary terms gathered at node i *)
Gather(c, cells, bnd, i) ==
    ConcatAll([e \in PCells(c) |->
                 IF InSeq(i, c.cells[e]) THEN cells[e][CHOOSE a \in Corners(c) : c.cells[e][a] = i] ELSE <<>>])
    \o ConcatAll([z \in DOMAIN bnd |-> IF bnd[z].n = i THEN bnd[z].v ELSE <<>>])

\* some condition of this node is respected (corners may belong to several)
PDirHolds(c, s, b, x, T, v) ==
    LET q == c.bcs[b] IN
    CASE q.kind = "dc" -> Near(v, PLin(q.a, x, s.t), 30)
      [] q.kind = "sieverts" -> Near(Mul(v, v), Mul(PLin(q.a, x, s.t), Mul(Arr(q.k, q.j, T), Arr(q.k, q.j, T))), 60) /\ v >= -5
      [] q.kind = "henrys" -> Near(v, Mul(Arr(q.k, q.j, T), PLin(q.a, x, s.t)), 30)
      [] q.kind = "imp" ->
           LET phi == PLin(q.a, x, s.t)
               first == Div(Mul(phi, PLin(q.rp, x, s.t)), Arr(q.k, q.j, T))
               rest == v - first
           IN  IF q.kr[1] = 0 THEN Near(v, first, 30)
               ELSE /\ rest >= -30
                    /\ Near(Mul3(rest, rest, Arr(q.kr[1], q.kr[2], T)),
                            phi + (IF q.kd[1] = 0 THEN 0 ELSE Mul(Arr(q.kd[1], q.kd[2], T), PLin(q.pr, x, s.t))), 120)
      [] q.kind = "customd" -> Near(v, Mul(M(q.k), T) + PLin(q.a, x, s.t), 30)
\* with chemical potential the value may refer to any of the materials that meet at a boundary node
PMobileDirOK(c, s, i) ==
    LET B == PDirsAt(c, 0, i) IN
    B = {} \/ \E b \in B, e \in {e \in PCells(c) : InSeq(i, c.cells[e])} : PDirHolds(c, s, b, X(c, i), s.T[i], PConcAt(c, s, e, i))
PMobileOK(c, p, s) ==
    LET cells == V([e \in PCells(c) |-> PCellTerms(c, p, s, 0, e)])
        bnd == V(PBoundary(c, s, 0))
    IN  \A i \in PNodes(c) : PDirsAt(c, 0, i) # {} \/ Closed(c, Gather(c, cells, bnd, i))
PTrapOK(c, p, s, k) ==
    LET cells == V([e \in PCells(c) |-> PCellTerms(c, p, s, k, e)]) IN
    IF c.el = "DG" THEN \A e \in PCells(c), a \in Corners(c) : Closed(c, cells[e][a])
    ELSE \A i \in PNodes(c) : PDirsAt(c, k, i) # {} \/ Closed(c, Gather(c, cells, <<>>, i))
\* value of a continuous trap at a node
PTrapAt(c, s, k, i) == LET e == CHOOSE e \in PCells(c) : InSeq(i, c.cells[e])
                       IN  s.tr[k][e][CHOOSE a \in Corners(c) : c.cells[e][a] = i]
PTrapDirOK(c, s, k) ==
    c.el = "DG" \/ \A i \in PNodes(c) : LET B == PDirsAt(c, k, i) IN
       B = {} \/ \E b \in B : PDirHolds(c, s, b, X(c, i), s.T[i], PTrapAt(c, s, k, i))
PTrapContinuous(c, s, k) ==
    c.el = "DG" \/ \A e \in PCells(c), a \in Corners(c) : Abs(s.tr[k][e][a] - PTrapAt(c, s, k, c.cells[e][a])) <= 2
PTempOK(c, p, s) ==
    IF ~THasEq(c) THEN \A i \in PNodes(c) : Near(s.T[i], PLin(c.temp.a, X(c, i), s.t), 5)
    ELSE LET cells == V([e \in PCells(c) |-> PHeatTerms(c, p, s, e)])
             bnd == V(PBoundary(c, s, 100))
         IN  \A i \in PNodes(c) :
               LET B == PDirsAt(c, 100, i) IN
               IF B = {} THEN Closed(c, Gather(c, cells, bnd, i))
               ELSE \E b \in B : Near(s.T[i], PLin(c.bcs[b].a, X(c, i), IF c.temp.kind = "steady" THEN 0 ELSE s.t), 5)

-----------------------------------------------------------------------------
(* initial state, post-processing *)
PIC(c, fld) == LET S == {i \in DOMAIN c.ics : c.ics[i].f = fld}
               IN  IF S = {} THEN <<0, 0, 0, 0, 0>> ELSE c.ics[CHOOSE i \in S : \A j \in S : j <= i].a
PT0OK(c, s) == IF c.temp.kind = "transient" THEN \A i \in PNodes(c) : Near(s.T[i], PLin(c.temp.a, X(c, i), 0), 5)
               ELSE PTempOK(c, s, s)
PU0OK(c, s) ==
    IF ~c.chem THEN \A i \in PNodes(c) : Near(s.u[i], PLin(PIC(c, 0), X(c, i), 0), 5)
    ELSE LET d == c.dim
             G == DOMAIN Pts(d)
             cell(e) == LET m == c.mats[PMat(c, e)]
                            T == At(d, CV(c, s.T, e))
                            u == At(d, CV(c, s.u, e))
                            c0 == At(d, CLin(c, PIC(c, 0), e, 0))
                            want == [g \in G |-> IF m.law = "sievert" THEN Div(c0[g], Sol(m, T[g])) ELSE Sqrt(Div(c0[g], Sol(m, T[g])))]
                            vol == Vol(c, e)
                        IN  [a \in Corners(c) |-> <<Mul(vol, Mean(d, [g \in G |-> Mul(u[g], Pts(d)[g][a])])),
                                                    -Mul(vol, Mean(d, [g \in G |-> Mul(want[g], Pts(d)[g][a])]))>>]
             cells == V([e \in PCells(c) |-> cell(e)])
         IN  \A i \in PNodes(c) : Closed(c, Gather(c, cells, <<>>, i))
PTrap0OK(c, s, k) == \A e \in PCells(c), a \in Corners(c) :
                       Near(s.tr[k][e][a], PLin(PIC(c, k), X(c, c.cells[e][a]), 0), 5)
PPostOK(c, s) ==
    IF ~c.chem THEN \A e \in PCells(c), a \in Corners(c) : Abs(s.c[e][a] - s.u[c.cells[e][a]]) <= 5
    ELSE \A e \in PCells(c) :
      LET d == c.dim
          G == DOMAIN Pts(d)
          m == c.mats[PMat(c, e)]
          T == At(d, CV(c, s.T, e))
          u == At(d, CV(c, s.u, e))
          pp == At(d, s.c[e])
          cc == [g \in G |-> Conc(c, m, u[g], T[g])]
          I(v) == Mul(Vol(c, e), Mean(d, v))
      IN  \A a \in Corners(c) :
            Balanced(<<I([g \in G |-> Mul(pp[g], Pts(d)[g][a])]), -I([g \in G |-> Mul(cc[g], Pts(d)[g][a])])>>,
                     Slack(c) + I([g \in G |-> Abs(cc[g])]) \div Den(c), Den(c))

\* hydrogen inventory (cartesian, no imposed hydrogen): all balances added up
PInventoryOK(c, p, s) ==
    c.geo # "cartesian" \/ HasHDir(c) \/ c.steady \/
    LET d == c.dim
        idt == Div(One, s.t - p.t)
        rate(e) == LET K == Ctx(c, p, s, e)
                       src(q) == IF ~InVol(q, c.cv[e]) \/ q.f = 100 THEN <<>>
                                 ELSE IF q.kind = "decay"
                                      THEN (IF q.f \in {0, -1} THEN <<Mul(K.vol, Mean(d, [g \in DOMAIN Pts(d) |-> Mul(M(q.a[1]), K.cc[g])]))>> ELSE <<>>)
                                           \o [k \in DOMAIN c.traps |-> IF q.f \in {k, -1}
                                                 THEN Mul(K.vol, Mean(d, [g \in DOMAIN Pts(d) |-> Mul(M(q.a[1]), At(d, s.tr[k][e])[g])])) ELSE 0]
                                      ELSE <<-Mul(K.vol, Mean(d, At(d, CLin(c, q.a, e, s.t))))>>
                   IN  <<Mul(K.vol, Mean(d, [g \in DOMAIN Pts(d) |-> Mul(K.cc[g] - K.cp[g], idt)]))>>
                       \o [k \in DOMAIN c.traps |-> Mul(K.vol, Mul(Mean(d, At(d, s.tr[k][e])) - Mean(d, At(d, p.tr[k][e])), idt))]
                       \o ConcatAll([q \in DOMAIN c.srcs |-> src(c.srcs[q])])
        bnd == V(PBoundary(c, s, 0))
    IN  Balanced(ConcatAll([e \in PCells(c) |-> rate(e)]) \o ConcatAll([z \in DOMAIN bnd |-> bnd[z].v]), 6 * Slack(c), Den(c))

-----------------------------------------------------------------------------
(* derived quantities *)
RECURSIVE PSumTr(_, _, _, _)
PSumTr(s, e, a, k) == IF k = 0 THEN 0 ELSE s.tr[k][e][a] + PSumTr(s, e, a, k - 1)
PFV(c, s, f, e) == V([a \in Corners(c) |->
    CASE f = 0 -> s.c[e][a] [] f = 100 -> s.T[c.cells[e][a]]
      [] f = 200 -> s.c[e][a] + PSumTr(s, e, a, Len(c.traps))
      [] OTHER -> s.tr[f][e][a]])
PW(c, r) == IF c.geo = "cartesian" THEN One ELSE r
\* angle, thousandths of the answer in the cylindrical case
PAngle(c, q) == IF c.geo = "cartesian" THEN One ELSE IF q.half THEN 3142 ELSE 6283
PVolCells(c, q) == SeqOfSet({e \in PCells(c) : c.cv[e] = q.id})
PVInt(c, s, q, one) ==
    LET es == PVolCells(c, q)
        cell(e) == LET r == At(c.dim, [a \in Corners(c) |-> X(c, c.cells[e][a])[1]])
                       v == At(c.dim, PFV(c, s, q.f, e))
                   IN  Mul(Vol(c, e), Mean(c.dim, [g \in DOMAIN r |-> Mul(PW(c, r[g]), IF one THEN One ELSE v[g])]))
    IN  SumSeq([z \in DOMAIN es |-> cell(es[z])])
PSurfFacets(c, q) == SeqOfSet({z \in DOMAIN c.facets : c.facets[z].id = q.id})
FCorners(c, ft) == Others(c, ft.opp)
FVals(c, s, f, ft) == LET v == PFV(c, s, f, ft.cell) IN [z \in 1..c.dim |-> v[FCorners(c, ft)[z]]]
FR(c, ft) == At(c.dim - 1, [z \in 1..c.dim |-> X(c, FNodes(c, ft)[z])[1]])
PSInt(c, s, q, one) ==
    LET fs == PSurfFacets(c, q)
        f1(ft) == LET v == At(c.dim - 1, FVals(c, s, q.f, ft)) r == FR(c, ft)
                  IN  Mul(FSize(c, ft), Mean(c.dim - 1, [g \in DOMAIN r |-> Mul(PW(c, r[g]), IF one THEN One ELSE v[g])]))
    IN  SumSeq([z \in DOMAIN fs |-> f1(c.facets[fs[z]])])
PSFlux(c, s, q) ==
    LET fs == PSurfFacets(c, q)
        f1(ft) ==
          LET d1 == c.dim - 1
              ns == FNodes(c, ft)
              mat == c.mats[PMat(c, ft.cell)]
              T == At(d1, [z \in DOMAIN ns |-> s.T[ns[z]]])
              r == FR(c, ft)
              n == FNormal(c, ft)
              gT == Dot(GradOf(c, ft.cell, CV(c, s.T, ft.cell)), n)
              gf == IF q.f = 100 THEN gT ELSE Dot(GradOf(c, ft.cell, PFV(c, s, 0, ft.cell)), n)
              v == At(d1, FVals(c, s, q.f, ft))
          IN  Mean(d1, [g \in DOMAIN r |->
                 Mul(PW(c, r[g]),
                   IF q.f = 100 THEN Mul(TProp(mat.k, T[g]), gf)
                   ELSE LET D == Arr(mat.D, mat.jD, T[g]) IN
                        Mul(D, gf) + (IF c.soret THEN Mul(D, Mul(Div(Div(Mul(TProp(mat.Q, T[g]), v[g]), T[g]), T[g]), gT)) ELSE 0))])
    IN  SumSeq([z \in DOMAIN fs |-> f1(c.facets[fs[z]])])
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
MinOf(S) == CHOOSE v \in S : \A w \in S : w >= v
PVolVals(c, s, q) == UNION {SeqRange(PFV(c, s, q.f, e)) : e \in SeqRange(PVolCells(c, q))}
PSurfVals(c, s, q) == UNION {SeqRange(FVals(c, s, q.f, c.facets[z])) : z \in SeqRange(PSurfFacets(c, q))}
PExpected(c, s, q) ==
    CASE q.k = "totvol" -> Mul(PVInt(c, s, q, FALSE), PAngle(c, q))
      [] q.k = "avgvol" -> Div(PVInt(c, s, q, FALSE), PVInt(c, s, q, TRUE))
      [] q.k = "maxvol" -> MaxOf(PVolVals(c, s, q))
      [] q.k = "minvol" -> MinOf(PVolVals(c, s, q))
      [] q.k = "totsurf" -> Mul(PSInt(c, s, q, FALSE), PAngle(c, q))
      [] q.k = "avgsurf" -> Div(PSInt(c, s, q, FALSE), PSInt(c, s, q, TRUE))
      [] q.k = "maxsurf" -> MaxOf(PSurfVals(c, s, q))
      [] q.k = "minsurf" -> MinOf(PSurfVals(c, s, q))
      [] q.k = "flux" -> Mul(PSFlux(c, s, q), PAngle(c, q))
      \* the centre of cell x[1]
      [] q.k = "point" -> DivI(SumFun(PFV(c, s, q.f, q.x[1]), c.dim + 1), c.dim + 1)
PDerivedOK(c, s, q, v) ==
    LET want == PExpected(c, s, q)
        got == IF c.geo # "cartesian" /\ q.k \in {"totvol", "totsurf", "flux"} THEN v[2] ELSE v[1]
    IN  Abs(want) >= Sat \div 2 \/ Near(got, want, IF q.k = "flux" THEN 100 ELSE 60)
PAllValues(c, s) == SeqRange(s.u) \cup SeqRange(s.T)
                   \cup UNION {SeqRange(s.tr[k][e]) : k \in DOMAIN c.traps, e \in PCells(c)}
                   \cup UNION {SeqRange(s.c[e]) : e \in DOMAIN s.c}
PFinite(c, s) == Sat \notin PAllValues(c, s)
\* a run-away (negative concentrations with recombination) is not judged: tiny steps of huge values
PInRange(c, p, s) == (c.steady \/ s.t - p.t >= 10000 \/ s.t <= p.t) /\ (\A v \in PAllValues(c, s) : Abs(v) < Sat \div 5) /\ \A i \in PNodes(c) : s.T[i] > 100000
=============================================================================
