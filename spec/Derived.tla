------------------------------ MODULE Derived -------------------------------
(***************************************************************************)
(* Values of derived quantities as functions of the accepted state.        *)
(*                                                                         *)
(* A request q has k (kind), f (field: 0 mobile, i trap, 100 temperature,  *)
(* 200 retention), id (volume or surface), x (point: <<cell, permille>>)   *)
(* and half (angular ranges: whole turn, or a part of it).                 *)
(* In curvilinear coordinates integrals are taken with (r/4)^n and the     *)
(* factor 4^n joins the angle; their values are in thousandths.            *)
(***************************************************************************)
EXTENDS Transport

RECURSIVE SumTr(_, _, _, _)
SumTr(s, e, a, k) == IF k = 0 THEN 0 ELSE s.tr[k][e][a + 1] + SumTr(s, e, a, k - 1)
FV(c, s, f, e, a) ==
    CASE f = 0 -> s.c[e][a + 1]
      [] f = 100 -> s.T[e + a]
      [] f = 200 -> s.c[e][a + 1] + SumTr(s, e, a, Len(c.traps))
      [] OTHER -> s.tr[f][e][a + 1]
GPow(c) == CASE c.geo = "cartesian" -> 0 [] c.geo = "cylindrical" -> 1 [] c.geo = "spherical" -> 2
\* (r/4)^n
W(c, r) == PowFix(DivI(r, 4), GPow(c))
\* 4^n times the angle, in thousands: 2 pi / pi (cylinder), 4 pi / pi (sphere)
Angle(c, q) == CASE c.geo = "cylindrical" -> IF q.half THEN 12566 ELSE 25133
                 [] c.geo = "spherical" -> IF q.half THEN 50265 ELSE 201062
                 [] OTHER -> One
VolCells(c, q) == {e \in Cells(c) : c.cv[e] = q.id}
RECURSIVE SumOver(_, _)
SumOver(Op(_), S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN Op(e) + SumOver(Op, S \ {e})
VInt(c, s, q) ==
    LET cell(e) == GInt(M(c.h[e]), [g \in 1..3 |->
                     Mul(GVal(FV(c, s, q.f, e, 0), FV(c, s, q.f, e, 1))[g], W(c, GVal(XNode(c, e), XNode(c, e + 1))[g]))])
    IN  SumOver(cell, VolCells(c, q))
VOne(c, q) ==
    LET cell(e) == GInt(M(c.h[e]), [g \in 1..3 |-> W(c, GVal(XNode(c, e), XNode(c, e + 1))[g])])
    IN  SumOver(cell, VolCells(c, q))
\* surfaces of a 1D mesh: 1 left, 2 right
SCell(c, q) == IF q.id = 1 THEN 1 ELSE Len(c.h)
SNode(c, q) == IF q.id = 1 THEN 1 ELSE Len(c.h) + 1
SVal(c, s, q) == FV(c, s, q.f, SCell(c, q), IF q.id = 1 THEN 0 ELSE 1)
SW(c, q) == W(c, XNode(c, SNode(c, q)))
SNormal(q) == IF q.id = 1 THEN -1 ELSE 1
Slope(c, s, f, e) == Div(FV(c, s, f, e, 1) - FV(c, s, f, e, 0), M(c.h[e]))
\* + prop grad(f) . n  (the outward gradient; the documented sign)
SFlux(c, s, q) ==
    LET e == SCell(c, q) i == SNode(c, q)
        mat == c.mats[CellMat(c, e)]
        T == s.T[i]
        D == Arr(mat.D, mat.jD, T)
        fick == IF q.f = 100 THEN Mul(TProp(mat.k, T), Slope(c, s, 100, e)) ELSE Mul(D, Slope(c, s, 0, e))
        sor == IF c.soret /\ q.f = 0
               THEN Mul(D, Mul(Div(Div(Mul(TProp(mat.Q, T), SVal(c, s, q)), T), T), Slope(c, s, 100, e)))
               ELSE 0
    IN  SNormal(q) * Mul(fick + sor, SW(c, q))
Extremes(c, s, q) == {FV(c, s, q.f, e, a) : e \in VolCells(c, q), a \in {0, 1}}
SKAt(c, q) == CHOOSE z \in {<<b, i>> : b \in DOMAIN c.bcs, i \in 1..2} :
                c.bcs[z[1]].kind = "sk" /\ z[2] \in DOMAIN c.bcs[z[1]].surf /\ c.bcs[z[1]].surf[z[2]] = q.id
Expected(c, s, q) ==
    CASE q.k = "totvol" -> Mul(VInt(c, s, q), Angle(c, q))
      [] q.k = "avgvol" -> Div(VInt(c, s, q), VOne(c, q))
      [] q.k = "maxvol" -> CHOOSE v \in Extremes(c, s, q) : \A w \in Extremes(c, s, q) : w <= v
      [] q.k = "minvol" -> CHOOSE v \in Extremes(c, s, q) : \A w \in Extremes(c, s, q) : w >= v
      [] q.k = "totsurf" -> Mul(Mul(SVal(c, s, q), SW(c, q)), Angle(c, q))
      [] q.k \in {"avgsurf", "maxsurf", "minsurf"} -> SVal(c, s, q)
      [] q.k = "flux" -> Mul(SFlux(c, s, q), Angle(c, q))
      [] q.k = "point" -> FV(c, s, q.f, q.x[1], 0) + Mul(M(q.x[2]), FV(c, s, q.f, q.x[1], 1) - FV(c, s, q.f, q.x[1], 0))
      [] q.k = "ads" -> LET z == SKAt(c, q) IN s.cs[c.bcs[z[1]].cs[z[2]]]
Scaled(c, q) == c.geo # "cartesian" /\ q.k \in {"totvol", "totsurf", "flux"}
\* v = <<value in millionths, value in thousandths>>
DerivedOK(c, s, q, v) ==
    LET want == Expected(c, s, q)
        got == IF Scaled(c, q) THEN v[2] ELSE v[1]
    IN  Abs(want) >= Sat \div 2 \/ Near(got, want, IF q.k = "flux" THEN 60 ELSE 30)
=============================================================================
