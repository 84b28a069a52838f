------------------------------ MODULE Transport -----------------------------
(***************************************************************************)
(* What one accepted step of a 1D FESTIM simulation has to satisfy.        *)
(*                                                                         *)
(* State: nodal values of the mobile unknown u (concentration, or c/S when *)
(* the chemical potential is conserved), of every trap (per cell corner),  *)
(* of extrinsic trap densities, of adsorbed surface concentrations and of  *)
(* the temperature.  A step from state p to state s is allowed iff the     *)
(* implicit-Euler balance of every field against every piecewise-linear    *)
(* test function closes (diffusion, Soret, trapping, sources, boundary     *)
(* fluxes) and every imposed value holds.  A steady state is the same      *)
(* without the time terms.                                                 *)
(*                                                                         *)
(* Units: lengths, times, concentrations are 1; temperature is in units of *)
(* T0 and an activation energy j stands for j k_B T0 ln 2, so that the     *)
(* Arrhenius factor is 2^(-j/T).  Configuration numbers are thousandths,   *)
(* state numbers millionths (Num).                                         *)
(***************************************************************************)
EXTENDS Num

Cells(c) == 1..Len(c.h)
THasEq(c) == c.temp.kind \in {"transient", "steady"}
Nodes(c) == 1..(Len(c.h) + 1)
RECURSIVE XNode(_, _)
XNode(c, i) == IF i = 1 THEN M(c.x0) ELSE XNode(c, i - 1) + M(c.h[i - 1])
MatOfVol(c, v) == CHOOSE m \in DOMAIN c.mats : InSeq(v, c.mats[m].ids)
CellMat(c, e) == MatOfVol(c, c.cv[e])

Arr(k, j, T) == IF j = 0 THEN M(k) ELSE Mul(M(k), Exp2Neg(Div(M(j), T)))
\* the same with prefactor and energy that change in time
ArrT(q, T, t) == LET k == M(q.k) + Mul(M(q.kt), t)
                     j == M(q.j) + Mul(M(q.jt), t)
                 IN  IF j = 0 THEN k ELSE Mul(k, Exp2Neg(Div(j, T)))
GArr(k, j, T) == [g \in 1..3 |-> Arr(k, j, T[g])]

\* linear functions of temperature
TProp(f, T) == M(f[1]) + Mul(M(f[2]), T)
\* a + b x + d t  (thousandths each)
Lin(f, x, t) == M(f[1]) + Mul(M(f[2]), x) + Mul(M(f[3]), t)
GLin(f, xl, xr, t) == [g \in 1..3 |-> Lin(f, GVal(xl, xr)[g], t)]

-----------------------------------------------------------------------------
(* concentration of mobile hydrogen from the unknown u *)
Sol(m, T) == Arr(m.S, m.jS, T)
Conc(c, m, u, T) ==
    IF ~c.chem THEN u
    ELSE IF m.law = "sievert" THEN Mul(u, Sol(m, T)) ELSE Mul3(u, Sol(m, T), u)
\* derivative in space, given u, T and their slopes
ConcSlope(c, m, u, du, T, dT) ==
    IF ~c.chem THEN du
    ELSE LET S == Sol(m, T)
             dS == IF m.jS = 0 THEN 0 ELSE Mul(Div(Div(Mul3(S, M(m.jS), Ln2), T), T), dT)
         IN  IF m.law = "sievert" THEN Mul(S, du) + Mul(u, dS)
             ELSE 2 * Mul3(u, S, du) + Mul3(u, dS, u)

\* the name of the k-th trap: its position, unless the user gives ids
TId(c, k) == CASE c.ids = 0 -> k [] c.ids = 1 -> Len(c.traps) + 1 - k [] OTHER -> k + 3
TrapIn(tr, m) == InSeq(m, tr.mats)
TPos(tr, m) == CHOOSE i \in DOMAIN tr.mats : tr.mats[i] = m
Par(seq, tr, m) == IF Len(seq) = 1 THEN seq[1] ELSE seq[TPos(tr, m)]

\* density of trap k at the Gauss points of cell e
GDens(c, p, s, k, e) ==
    LET tr == c.traps[k]
        m == CellMat(c, e)
    IN  IF tr.kind = "trap"
        THEN GLin(Par(tr.n, tr, m), XNode(c, e), XNode(c, e + 1), s.t)
        ELSE GVal(p.n[k][e], p.n[k][e + 1])        \* density known at the last step

-----------------------------------------------------------------------------
(* sources *)
InVol(q, v) == InSeq(v, q.vols)
\* an implanted flux: flux(x, t) / (w sqrt(2 pi)) exp(-((x - mu(t)) / w)^2 / 2)
InvSqrt2Pi == 398942
Gauss(q, x, t) ==
    LET z == Div(x - Lin(q.mu, x, t), M(q.w))
        z2 == Mul(z, z)
    IN  Div(Mul3(Lin(q.a, x, t), InvSqrt2Pi, Exp2Neg(Div(z2, 2 * Ln2))), M(q.w))
\* the quadratic through the values at both ends and the middle of a cell:
\* FESTIM represents given functions of space with degree 2
Quad(l, m, r) == [g \in 1..3 |-> LET z == GPts[g] IN
                    Mul3(l, One - z, One - 2 * z) + 4 * Mul3(m, z, One - z) + Mul3(r, z, 2 * z - One)]
\* value of source q at Gauss points of cell e
GSrc(c, s, q, e) ==
    LET xl == XNode(c, e) xr == XNode(c, e + 1) IN
    IF q.kind = "gauss" THEN Quad(Gauss(q, xl, s.t), Gauss(q, (xl + xr) \div 2, s.t), Gauss(q, xr, s.t))
    ELSE GLin(q.a, xl, xr, s.t)

(* terms of the balance of field `fld` (0 mobile, k trap k) in cell e against *)
(* the hat of its corner a (0 left, 1 right)                                  *)
CellTerms(c, p, s, fld, e, a) ==
    LET h == M(c.h[e])
        ih == Div(One, h)
        m == CellMat(c, e)
        mat == c.mats[m]
        v == c.cv[e]
        T == GVal(s.T[e], s.T[e + 1])
        dT == Mul(s.T[e + 1] - s.T[e], ih)
        Tp == GVal(p.T[e], p.T[e + 1])
        u == GVal(s.u[e], s.u[e + 1])
        du == Mul(s.u[e + 1] - s.u[e], ih)
        up == GVal(p.u[e], p.u[e + 1])
        cc == [g \in 1..3 |-> Conc(c, mat, u[g], T[g])]
        cp == [g \in 1..3 |-> Conc(c, mat, up[g], Tp[g])]
        dc == [g \in 1..3 |-> ConcSlope(c, mat, u[g], du, T[g], dT)]
        phi == GHat(a)
        dphi == IF a = 0 THEN -ih ELSE ih
        x == GVal(XNode(c, e), XNode(c, e + 1))
        \* slope of the test function in the coordinate system
        tslope == [g \in 1..3 |-> CASE c.geo = "cartesian" -> dphi
                                    [] c.geo = "cylindrical" -> dphi - Div(phi[g], x[g])
                                    [] c.geo = "spherical" -> dphi - 2 * Div(phi[g], x[g])]
        D == GArr(mat.D, mat.jD, T)
        idt == Div(One, s.t - p.t)
        I(val) == GInt(h, GMul(val, phi))
        exch(k) ==  \* trapping minus detrapping, at Gauss points
            LET tr == c.traps[k]
                ct == GVal(s.tr[k][e][1], s.tr[k][e][2])
                n == GDens(c, p, s, k, e)
            IN  [g \in 1..3 |->
                   Mul3(Arr(Par(tr.k, tr, m), Par(tr.jk, tr, m), T[g]), cc[g], n[g] - ct[g])
                   - Mul(Arr(Par(tr.p, tr, m), Par(tr.jp, tr, m), T[g]), ct[g])]
        srcs == {q \in DOMAIN c.srcs : InVol(c.srcs[q], v) /\ (c.srcs[q].f = fld \/ (c.srcs[q].f = -1 /\ fld < 100))}
        conc == IF fld = 0 THEN cc ELSE GVal(s.tr[fld][e][1], s.tr[fld][e][2])
        srcseq == [q \in DOMAIN c.srcs |->
                     IF q \notin srcs THEN 0
                     ELSE IF c.srcs[q].kind = "decay"
                          THEN I([g \in 1..3 |-> Mul(M(c.srcs[q].a[1]), conc[g])])
                          ELSE -I(GSrc(c, s, c.srcs[q], e))]
        mine == {k \in DOMAIN c.traps : TrapIn(c.traps[k], m)}
    IN
    IF fld = 0 THEN
        (IF c.steady THEN <<>> ELSE <<I([g \in 1..3 |-> Mul(cc[g] - cp[g], idt)])>>)
        \o <<GInt(h, [g \in 1..3 |-> Mul3(D[g], dc[g], tslope[g])])>>
        \o (IF c.soret
            THEN <<GInt(h, [g \in 1..3 |->
                     Mul(Mul(D[g], tslope[g]), Mul(Div(Div(Mul(TProp(mat.Q, T[g]), cc[g]), T[g]), T[g]), dT))])>>
            ELSE <<>>)
        \o [k \in DOMAIN c.traps |-> IF k \in mine THEN I(exch(k)) ELSE 0]
        \o srcseq
    ELSE
        LET ct == GVal(s.tr[fld][e][1], s.tr[fld][e][2])
            cn == GVal(p.tr[fld][e][1], p.tr[fld][e][2])
        IN  (IF ~c.steady THEN <<I([g \in 1..3 |-> Mul(ct[g] - cn[g], idt)])>>
             ELSE IF fld \notin mine THEN <<I(ct)>> ELSE <<>>)
            \o (IF fld \in mine THEN <<-I(exch(fld))>> ELSE <<>>)
            \o srcseq

-----------------------------------------------------------------------------
(* boundary *)
Surf(c, i) == IF i = 1 THEN 1 ELSE IF i = Len(c.h) + 1 THEN 2 ELSE 0
OnSurf(b, i, c) == Surf(c, i) # 0 /\ InSeq(Surf(c, i), b.surf)
DirKinds == {"dc", "sieverts", "henrys", "imp", "customd"}
DirsAt(c, fld, i) == {b \in DOMAIN c.bcs : c.bcs[b].f = fld /\ c.bcs[b].kind \in DirKinds /\ OnSurf(c.bcs[b], i, c)}
EdgeMat(c, i) == c.mats[CellMat(c, IF i = 1 THEN 1 ELSE i - 1)]
MobileAt(c, s, i) == Conc(c, EdgeMat(c, i), s.u[i], s.T[i])

\* surface kinetics: fluxes at node i for condition b
SKIndex(c, b, i) == c.bcs[b].cs[CHOOSE z \in DOMAIN c.bcs[b].surf : c.bcs[b].surf[z] = Surf(c, i)]
\* with user functions the rates depend on the concentrations:
\* k_sb (1 + c/4), k_bs (1 + c_s/2), J_vs = (a + b x + d t) - c_s/4 - c/8
Jbs(c, s, b, i) == LET q == c.bcs[b] cs == s.cs[SKIndex(c, b, i)]
                       k == Mul(Arr(q.kbs[1], q.kbs[2], s.T[i]), IF q.fn = 1 THEN One + DivI(cs, 2) ELSE One)
                   IN  Mul3(k, MobileAt(c, s, i), One - Div(cs, M(q.nsurf)))
Jsb(c, s, b, i) == LET q == c.bcs[b] cs == s.cs[SKIndex(c, b, i)]
                       k == Mul(Arr(q.ksb[1], q.ksb[2], s.T[i]), IF q.fn = 1 THEN One + DivI(MobileAt(c, s, i), 4) ELSE One)
                   IN  Mul3(k, cs, One - Div(MobileAt(c, s, i), M(q.nis)))
Jvs(c, s, b, i) == LET q == c.bcs[b]
                   IN  Lin(q.a, XNode(c, i), s.t)
                       - (IF q.fn = 1 THEN DivI(s.cs[SKIndex(c, b, i)], 4) + DivI(MobileAt(c, s, i), 8) ELSE 0)

\* hydrogen entering through condition b at node i, as terms of the balance
FluxTerms(c, p, s, b, i) ==
    LET q == c.bcs[b]
        x == XNode(c, i)
        cm == MobileAt(c, s, i)
        T == s.T[i]
    IN  CASE q.kind = "flux" -> <<-Lin(q.a, x, s.t)>>
          [] q.kind = "recomb" -> <<Mul(ArrT(q, T, s.t), PowFix(cm, q.order))>>
          [] q.kind = "dissoc" -> <<-Mul(ArrT(q, T, s.t), Lin(q.a, x, s.t))>>
          [] q.kind = "mass" -> LET h == M(q.k) + Mul(M(q.kt), s.t) IN <<Mul(h, cm), -Mul(h, Lin(q.a, x, s.t))>>
          \* the user function -(k + kt t) c T + (a + b x + d t)
          [] q.kind = "customf" -> <<Mul3(M(q.k) + Mul(M(q.kt), s.t), cm, T), -Lin(q.a, x, s.t)>>
          [] q.kind = "sk" ->
               (IF c.steady THEN <<>>
                ELSE <<Mul3(M(q.lam), cm - MobileAt(c, p, i), Div(One, s.t - p.t))>>)
               \o <<Jbs(c, s, b, i), -Jsb(c, s, b, i)>>
          [] OTHER -> <<>>
NodeFlux(c, p, s, i) ==
    ConcatAll([b \in DOMAIN c.bcs |->
                 IF c.bcs[b].f = 0 /\ OnSurf(c.bcs[b], i, c) THEN FluxTerms(c, p, s, b, i) ELSE <<>>])

\* value imposed by Dirichlet-type condition b at node i is respected by v
DirHolds(c, s, b, i, v) ==
    LET q == c.bcs[b]
        x == XNode(c, i)
        T == s.T[i]
    IN  CASE q.kind = "dc" -> Near(v, Lin(q.a, x, s.t), 30)
          [] q.kind = "sieverts" -> Near(Mul(v, v), Mul(Lin(q.a, x, s.t), Mul(Arr(q.k, q.j, T), Arr(q.k, q.j, T))), 60) /\ v >= -5
          [] q.kind = "henrys" -> Near(v, Mul(Arr(q.k, q.j, T), Lin(q.a, x, s.t)), 30)
          \* c = phi Rp / D + sqrt((phi + Kd P) / Kr)
          [] q.kind = "imp" ->
               LET phi == Lin(q.a, x, s.t)
                   first == Div(Mul(phi, Lin(q.rp, x, s.t)), Arr(q.k, q.j, T))
                   rest == v - first
               IN  IF q.kr[1] = 0 THEN Near(v, first, 30)
                   ELSE /\ rest >= -30
                        /\ Near(Mul3(rest, rest, Arr(q.kr[1], q.kr[2], T)),
                                phi + (IF q.kd[1] = 0 THEN 0 ELSE Mul(Arr(q.kd[1], q.kd[2], T), Lin(q.pr, x, s.t))), 120)
          \* the user function k T + (a + b x + d t)
          [] q.kind = "customd" -> Near(v, Mul(M(q.k), T) + Lin(q.a, x, s.t), 30)

-----------------------------------------------------------------------------
(* balances *)
NodeTerms(c, p, s, fld, i) ==
    (IF i > 1 THEN CellTerms(c, p, s, fld, i - 1, 1) ELSE <<>>)
    \o (IF i <= Len(c.h) THEN CellTerms(c, p, s, fld, i, 0) ELSE <<>>)
    \o (IF fld = 0 THEN NodeFlux(c, p, s, i) ELSE <<>>)
Slack(c) == 150
\* temperature gradients: the quadrature of the code and the one here differ on
\* Arrhenius factors; the code may also take a piecewise-linear solubility
Den(c) == IF THasEq(c) \/ (c.chem /\ c.temp.a[2] # 0) THEN (IF c.chem THEN c.den \div 10 ELSE c.den \div 4) ELSE c.den
Closed(c, terms) == Balanced(terms, Slack(c), Den(c))

MobileOK(c, p, s, i) == DirsAt(c, 0, i) # {} \/ Closed(c, NodeTerms(c, p, s, 0, i))
MobileDirOK(c, s, i) == \A b \in DirsAt(c, 0, i) : DirHolds(c, s, b, i, MobileAt(c, s, i))
TrapOK(c, p, s, k) ==
    IF c.el = "DG"
    THEN \A e \in Cells(c), a \in {0, 1} : Closed(c, CellTerms(c, p, s, k, e, a))
    ELSE \A i \in Nodes(c) : DirsAt(c, k, i) # {} \/ Closed(c, NodeTerms(c, p, s, k, i))
TrapDirOK(c, s, k) ==
    c.el = "DG" \/ \A i \in {1, Len(c.h) + 1} : \A b \in DirsAt(c, k, i) :
        DirHolds(c, s, b, i, IF i = 1 THEN s.tr[k][1][1] ELSE s.tr[k][Len(c.h)][2])
\* traps of a continuous element are continuous
TrapContinuous(c, s, k) == c.el = "DG" \/ \A e \in Cells(c) : e = 1 \/ Abs(s.tr[k][e][1] - s.tr[k][e - 1][2]) <= 2
\* surface concentration
SurfOK(c, p, s, b, i) ==
    LET q == c.bcs[b] z == SKIndex(c, b, i)
    IN  Closed(c, (IF c.steady THEN <<>> ELSE <<Mul(s.cs[z] - p.cs[z], Div(One, s.t - p.t))>>)
                  \o <<-Jvs(c, s, b, i), -Jbs(c, s, b, i), Jsb(c, s, b, i)>>)

(* density of extrinsic and neutron-induced traps *)
DensTerms(c, p, s, k, i) ==
    LET tr == c.traps[k]
        part(e, a) ==
            LET h == M(c.h[e])
                n == GVal(s.n[k][e], s.n[k][e + 1])
                np == GVal(p.n[k][e], p.n[k][e + 1])
                T == GVal(s.T[e], s.T[e + 1])
                xl == XNode(c, e) xr == XNode(c, e + 1)
                I(val) == GInt(h, GMul(val, GHat(a)))
                q == tr.d
            IN  <<I([g \in 1..3 |-> Mul(n[g] - np[g], Div(One, s.t - p.t))])>>
                \o (IF tr.kind = "extrinsic"
                    THEN <<-I([g \in 1..3 |->
                             Mul(GLin(q.phi, xl, xr, s.t)[g],
                                 Mul3(One - Div(n[g], Lin(q.na, 0, s.t)), M(q.ea), GLin(q.fa, xl, xr, s.t)[g])
                                 + Mul3(One - Div(n[g], Lin(q.nb, 0, s.t)), M(q.eb), GLin(q.fb, xl, xr, s.t)[g]))])>>
                    ELSE <<-I([g \in 1..3 |->
                             Mul(Mul(GLin(q.phi, xl, xr, s.t)[g], M(q.K)), One - Div(n[g], M(q.nmax)))]),
                           I([g \in 1..3 |-> Mul(Arr(q.A, q.jA, T[g]), n[g])])>>)
    IN  (IF i > 1 THEN part(i - 1, 1) ELSE <<>>) \o (IF i <= Len(c.h) THEN part(i, 0) ELSE <<>>)
DensOK(c, p, s, k) == \A i \in Nodes(c) : Closed(c, DensTerms(c, p, s, k, i))

-----------------------------------------------------------------------------
(* temperature *)
HeatTerms(c, p, s, i) ==
    LET time == IF c.temp.kind = "steady" THEN 0 ELSE s.t
        part(e, a) ==
            LET h == M(c.h[e])
                ih == Div(One, h)
                mat == c.mats[CellMat(c, e)]
                T == GVal(s.T[e], s.T[e + 1])
                Tp == GVal(p.T[e], p.T[e + 1])
                dT == Mul(s.T[e + 1] - s.T[e], ih)
                dphi == IF a = 0 THEN -ih ELSE ih
                phi == GHat(a)
                x == GVal(XNode(c, e), XNode(c, e + 1))
                ts == [g \in 1..3 |-> CASE c.geo = "cartesian" -> dphi
                                    [] c.geo = "cylindrical" -> dphi - Div(phi[g], x[g])
                                    [] c.geo = "spherical" -> dphi - 2 * Div(phi[g], x[g])]
                I(val) == GInt(h, GMul(val, phi))
            IN  (IF c.temp.kind = "steady" THEN <<>>
                 ELSE <<I([g \in 1..3 |-> Mul(Mul(TProp(mat.rho, T[g]), TProp(mat.cp, T[g])), Mul(T[g] - Tp[g], Div(One, s.t - p.t)))])>>)
                \o <<GInt(h, [g \in 1..3 |-> Mul3(TProp(mat.k, T[g]), dT, ts[g])])>>
                \o [q \in DOMAIN c.srcs |->
                      IF c.srcs[q].f = 100 /\ InVol(c.srcs[q], c.cv[e])
                      THEN -I(GLin(c.srcs[q].a, XNode(c, e), XNode(c, e + 1), time)) ELSE 0]
        flux(b) ==
            LET q == c.bcs[b] x == XNode(c, i)
            IN  CASE q.kind = "flux" -> <<-Lin(q.a, x, time)>>
                  [] q.kind = "conv" -> LET hc == M(q.k) + Mul(M(q.kt), time) IN <<Mul(hc, s.T[i]), -Mul(hc, Lin(q.a, x, time))>>
                  [] q.kind = "customt" -> <<Mul(M(q.k), s.T[i]), -Lin(q.a, x, time)>>
                  [] OTHER -> <<>>
    IN  (IF i > 1 THEN part(i - 1, 1) ELSE <<>>) \o (IF i <= Len(c.h) THEN part(i, 0) ELSE <<>>)
        \o ConcatAll([b \in DOMAIN c.bcs |-> IF c.bcs[b].f = 100 /\ OnSurf(c.bcs[b], i, c) THEN flux(b) ELSE <<>>])
TempOK(c, p, s, i) ==
    IF ~THasEq(c) THEN Near(s.T[i], Lin(c.temp.a, XNode(c, i), IF c.temp.kind = "file" THEN 0 ELSE s.t), 5)
    ELSE IF DirsAt(c, 100, i) # {}
         THEN \A b \in DirsAt(c, 100, i) :
                Near(s.T[i], Lin(c.bcs[b].a, XNode(c, i), IF c.temp.kind = "steady" THEN 0 ELSE s.t), 5)
         ELSE Closed(c, HeatTerms(c, p, s, i))

-----------------------------------------------------------------------------
(* initial state *)
IC(c, fld) == LET S == {i \in DOMAIN c.ics : c.ics[i].f = fld}
              IN  IF S = {} THEN <<0, 0, 0>> ELSE c.ics[CHOOSE i \in S : \A j \in S : j <= i].a
T0OK(c, s) ==
    CASE c.temp.kind = "transient" -> \A i \in Nodes(c) : Near(s.T[i], Lin(c.temp.a, XNode(c, i), 0), 5)
      [] OTHER -> \A i \in Nodes(c) : TempOK(c, s, s, i)
U0OK(c, s) ==
    IF ~c.chem THEN \A i \in Nodes(c) : Near(s.u[i], Lin(IC(c, 0), XNode(c, i), 0), 5)
    ELSE \* the projection of c0/S (sqrt of it in Henry materials)
      \A i \in Nodes(c) :
        LET part(e, a) ==
              LET m == c.mats[CellMat(c, e)] h == M(c.h[e])
                  T == GVal(s.T[e], s.T[e + 1])
                  u == GVal(s.u[e], s.u[e + 1])
                  c0 == GLin(IC(c, 0), XNode(c, e), XNode(c, e + 1), 0)
                  I(val) == GInt(h, GMul(val, GHat(a)))
              IN  <<I(u)>> \o
                  (IF m.law = "sievert" THEN <<-I([g \in 1..3 |-> Div(c0[g], Sol(m, T[g]))])>>
                   ELSE <<-I([g \in 1..3 |-> Sqrt(Div(c0[g], Sol(m, T[g])))])>>)
        IN  Closed(c, (IF i > 1 THEN part(i - 1, 1) ELSE <<>>) \o (IF i <= Len(c.h) THEN part(i, 0) ELSE <<>>))
Trap0OK(c, s, k) == \A e \in Cells(c), a \in {0, 1} :
                      Near(s.tr[k][e][a + 1], Lin(IC(c, k), XNode(c, e + a), 0), 5)
Surf0OK(c, s) == \A b \in DOMAIN c.bcs : c.bcs[b].kind = "sk" =>
                    \A z \in DOMAIN c.bcs[b].cs : Near(s.cs[c.bcs[b].cs[z]], M(c.bcs[b].ini), 5)
Dens0OK(c, s) == \A k \in DOMAIN c.traps : c.traps[k].kind # "trap" => \A i \in Nodes(c) : Abs(s.n[k][i]) <= 5

-----------------------------------------------------------------------------
(* concentration handed to post-processing (one linear function per cell) *)
PostOK(c, s) ==
    \A e \in Cells(c), a \in {0, 1} :
      LET h == M(c.h[e]) m == c.mats[CellMat(c, e)]
          T == GVal(s.T[e], s.T[e + 1])
          u == GVal(s.u[e], s.u[e + 1])
          pp == GVal(s.c[e][1], s.c[e][2])
          I(val) == GInt(h, GMul(val, GHat(a)))
      IN  IF ~c.chem THEN Abs(s.c[e][a + 1] - s.u[e + a]) <= 5
          ELSE LET cc == [g \in 1..3 |-> Conc(c, m, u[g], T[g])] IN
               Balanced(<<I(pp), -I(cc)>>, Slack(c) + GInt(h, [g \in 1..3 |-> Abs(cc[g])]) \div Den(c), Den(c))

-----------------------------------------------------------------------------
(* hydrogen inventory: the sum of all balances; exchanges with traps cancel *)
RECURSIVE Upto(_, _, _)
Upto(Op(_), i, n) == IF i > n THEN <<>> ELSE Op(i) \o Upto(Op, i + 1, n)
\* terms of the global balance (cartesian, no Dirichlet-type value on hydrogen)
InventoryTerms(c, p, s) ==
    LET cell(e) ==
          LET h == M(c.h[e]) m == CellMat(c, e) mat == c.mats[m]
              T == GVal(s.T[e], s.T[e + 1]) Tp == GVal(p.T[e], p.T[e + 1])
              u == GVal(s.u[e], s.u[e + 1]) up == GVal(p.u[e], p.u[e + 1])
              idt == Div(One, s.t - p.t)
              cc == [g \in 1..3 |-> Conc(c, mat, u[g], T[g])]
          IN  <<GInt(h, [g \in 1..3 |-> Mul(cc[g] - Conc(c, mat, up[g], Tp[g]), idt)])>>
              \o [k \in DOMAIN c.traps |->
                    GInt(h, [g \in 1..3 |-> Mul(GVal(s.tr[k][e][1], s.tr[k][e][2])[g] - GVal(p.tr[k][e][1], p.tr[k][e][2])[g], idt)])]
              \o ConcatAll([q \in DOMAIN c.srcs |->
                   LET z == c.srcs[q] IN
                   IF ~InVol(z, c.cv[e]) \/ z.f = 100 THEN <<>>
                   ELSE IF z.kind = "decay"
                        THEN (IF z.f \in {0, -1} THEN <<GInt(h, [g \in 1..3 |-> Mul(M(z.a[1]), cc[g])])>> ELSE <<>>)
                             \o [k \in DOMAIN c.traps |-> IF z.f \in {k, -1}
                                   THEN GInt(h, [g \in 1..3 |-> Mul(M(z.a[1]), GVal(s.tr[k][e][1], s.tr[k][e][2])[g])]) ELSE 0]
                        ELSE <<-GInt(h, GSrc(c, s, z, e))>>])
    IN  Upto(cell, 1, Len(c.h)) \o NodeFlux(c, p, s, 1) \o NodeFlux(c, p, s, Len(c.h) + 1)
HasHDir(c) == \E b \in DOMAIN c.bcs : c.bcs[b].kind \in DirKinds /\ c.bcs[b].f # 100
InventoryOK(c, p, s) == c.geo # "cartesian" \/ HasHDir(c) \/ c.steady
                        \/ Balanced(InventoryTerms(c, p, s), 4 * Slack(c), Den(c))
\* values of a state: Sat stands for "not a number"; beyond 50 the arithmetic
\* of this module is not accurate
AllValues(c, s) == SeqRange(s.u) \cup SeqRange(s.T) \cup SeqRange(s.cs)
                   \cup UNION {SeqRange(s.tr[k][e]) : k \in DOMAIN c.traps, e \in Cells(c)}
                   \cup UNION {SeqRange(s.c[e]) : e \in DOMAIN s.c}
Finite(c, s) == Sat \notin AllValues(c, s)
\* a run-away (negative concentrations with recombination) is not judged: tiny steps of huge values
InRange(c, p, s) == (c.steady \/ s.t - p.t >= 10000 \/ s.t <= p.t) /\ (\A v \in AllValues(c, s) : Abs(v) < Sat \div 5) /\ \A i \in Nodes(c) : s.T[i] > 100000
=============================================================================
