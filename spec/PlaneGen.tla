------------------------------ MODULE PlaneGen ------------------------------
(* Configurations of Plane: a 1D configuration of TransportGen extruded into *)
(* triangles or tetrahedra, with functions that also depend on y and z, and  *)
(* conditions on the other surfaces.                                         *)
EXTENDS TransportGen
CONSTANT Dims
VARIABLE pl
pvars == <<fam, stage, cfg, aux, pl>>

\* ---- the mesh: layers in x (the 1D cells), levels in y and z
RECURSIVE Pos(_, _)
Pos(h, i) == IF i = 0 THEN 0 ELSE Pos(h, i - 1) + h[i]
Idx(nx, ny, i, j, k) == k * (nx + 1) * (ny + 1) + j * (nx + 1) + i + 1
\* node -> <<i, j, k>>
Gx(nx, ny, n) == <<(n - 1) % (nx + 1), ((n - 1) \div (nx + 1)) % (ny + 1), (n - 1) \div ((nx + 1) * (ny + 1))>>
Tets == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
Step1(b, d) == [b EXCEPT ![d] = @ + 1]
\* corners of the cells of box <<i, j, k>>
BoxCells(nx, ny, dim, b, diag) ==
    LET N(p) == Idx(nx, ny, p[1], p[2], p[3]) IN
    IF dim = 2
    THEN LET A == b B == Step1(b, 1) Cc == Step1(Step1(b, 1), 2) D == Step1(b, 2) IN
         IF (b[1] + b[2] + diag) % 2 = 0 THEN <<<<N(A), N(B), N(Cc)>>, <<N(A), N(Cc), N(D)>>>>
         ELSE <<<<N(A), N(B), N(D)>>, <<N(B), N(Cc), N(D)>>>>
    ELSE [z \in 1..6 |-> LET p == Tets[z] IN
            <<N(b), N(Step1(b, p[1])), N(Step1(Step1(b, p[1]), p[2])), N(Step1(Step1(Step1(b, p[1]), p[2]), p[3]))>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* marks of the sides x-, x+, y-, y+, z-, z+
Marks == {<<1, 2, 3, 4, 5, 6>>, <<1, 2, 0, 0, 0, 0>>, <<1, 2, 1, 2, 0, 0>>, <<1, 2, 3, 3, 4, 0>>, <<2, 1, 7, 0, 7, 3>>, <<1, 2, 2, 3, 4, 1>>}
Mesh2(m) ==
    LET nx == Len(cfg.h) ny == Len(m.hy) nz == IF m.dim = 3 THEN Len(m.hz) ELSE 0
        nn == (nx + 1) * (ny + 1) * (nz + 1)
        nb == nx * ny * (IF m.dim = 3 THEN nz ELSE 1)
        box(z) == <<(z - 1) % nx, ((z - 1) \div nx) % ny, (z - 1) \div (nx * ny)>>
        xs == [n \in 1..nn |-> LET g == Gx(nx, ny, n) IN
                 <<cfg.x0 + Pos(cfg.h, g[1]) + m.skew * g[2], Pos(m.hy, g[2])>> \o (IF m.dim = 3 THEN <<Pos(m.hz, g[3]) + m.skew * g[1]>> ELSE <<>>)]
        percell == [z \in 1..nb |-> BoxCells(nx, ny, m.dim, box(z), m.diag)]
        cells == TLCEval(Cat(percell))
        w == IF m.dim = 2 THEN 2 ELSE 6
        side(ns) == LET g == {Gx(nx, ny, ns[i]) : i \in DOMAIN ns} IN
                    CASE \A p \in g : p[1] = 0 -> 1 [] \A p \in g : p[1] = nx -> 2
                      [] \A p \in g : p[2] = 0 -> 3 [] \A p \in g : p[2] = ny -> 4
                      [] m.dim = 3 /\ \A p \in g : p[3] = 0 -> 5 [] m.dim = 3 /\ \A p \in g : p[3] = nz -> 6
                      [] OTHER -> 0
        fct(e, a) == LET s == side(SelectSeq([i \in 1..(m.dim + 1) |-> IF i = a THEN 0 ELSE cells[e][i]], LAMBDA q : q # 0))
                     IN  IF s = 0 THEN <<>> ELSE <<[cell |-> e, opp |-> a, id |-> m.marks[s]]>>
    IN  [dim |-> m.dim, xs |-> xs, cells |-> cells,
         cv |-> [e \in DOMAIN cells |-> cfg.cv[box((e - 1) \div w + 1)[1] + 1]],
         facets |-> Cat([z \in 1..(Len(cells) * (m.dim + 1)) |-> fct((z - 1) \div (m.dim + 1) + 1, ((z - 1) % (m.dim + 1)) + 1)])]

\* ---- functions of y and z
Y(a, o, d) == a \o <<R(o), IF d = 2 THEN 0 ELSE R(o)>>
YB(b, d) == [b EXCEPT !.a = Y(b.a, IF b.f = 100 THEN {0, 50} ELSE {0, 250}, d), !.rp = Y(b.rp, {0}, d), !.pr = Y(b.pr, {0}, d)]
YT(t, d) == [t EXCEPT !.n = [i \in DOMAIN t.n |-> Y(t.n[i], {0, 125}, d)]]
Used(m) == {m.marks[i] : i \in 1..(2 * m.dim)} \ {0}
\* a condition for one of the other surfaces
Extra(m) ==
    LET free == Used(m) \ UNION {{cfg.bcs[b].surf[i] : i \in DOMAIN cfg.bcs[b].surf} : b \in DOMAIN cfg.bcs}
        sf == R(free)
    IN  IF free = {} \/ R({1, 2, 3}) = 1 THEN <<>>
        ELSE CASE fam \in {"flux", "mix"} -> <<RFlux(<<sf>>)>>
               [] fam \in {"dirichlet", "chem"} -> IF R({1, 2}) = 1 THEN <<RFlux(<<sf>>)>> ELSE <<RDirM(<<sf>>)>>
               [] fam = "temp" /\ HeatEq -> <<RHeat(<<sf>>, HeatKinds)>>
               [] fam = "coord" -> IF HeatEq THEN <<RFlux(<<sf>>), RHeat(<<sf>>, HeatKinds)>> ELSE <<RFlux(<<sf>>)>>
               [] OTHER -> <<>>
\* surface kinetics exists in 1D only
NoSK == SelectSeq(cfg.bcs, LAMBDA b : b.kind # "sk")

PRDQ(m, ncell) ==
    LET k == R({"totvol", "avgvol", "maxvol", "minvol", "totsurf", "avgsurf", "maxsurf", "minsurf", "flux", "flux", "totsurf", "point"}) IN
    [k |-> k, half |-> R({TRUE, FALSE}), fs |-> R({"int", "str", "solute"}),
     f |-> IF k = "flux" THEN R({0} \cup (IF HeatEq THEN {100} ELSE {})) ELSE R(Fields),
     id |-> IF k \in {"totvol", "avgvol", "maxvol", "minvol"} THEN R(Vols) ELSE R(Used(m)),
     x |-> <<R(1..ncell), 0>>]

PInit == GInit /\ pl = [dim |-> 0]
Extrude ==
    /\ stage = 13
    /\ \E m \in {[dim |-> IF fam = "coord" THEN 2 ELSE R(Dims), hy |-> R({<<1000>>, <<500, 1000>>, <<500, 500>>}), hz |-> R({<<1000>>, <<500>>}),
                  skew |-> R({0, 0, 250}), diag |-> R({0, 1}), marks |-> R(Marks), file |-> R({0, 0, 1})]} :
         /\ pl' = m
         /\ LET me == TLCEval(Mesh2(m)) IN
            cfg' = [geo |-> IF cfg.geo = "cartesian" THEN "cartesian" ELSE "cylindrical", dim |-> me.dim, xs |-> me.xs, cells |-> me.cells, cv |-> me.cv, facets |-> me.facets,
                    mats |-> cfg.mats, temp |-> [cfg.temp EXCEPT !.a = Y(cfg.temp.a, IF cfg.temp.a[2] # 0 THEN {0, 50} ELSE {0}, m.dim)],
                    traps |-> [k \in DOMAIN cfg.traps |-> YT(cfg.traps[k], m.dim)], ids |-> cfg.ids, el |-> cfg.el,
                    ics |-> [i \in DOMAIN cfg.ics |-> [cfg.ics[i] EXCEPT !.a = Y(cfg.ics[i].a, {0, 125}, m.dim)]],
                    bcs |-> LET ex == TLCEval(Extra(m)) al == NoSK \o ex IN [b \in DOMAIN al |-> YB(al[b], m.dim)],
                    srcs |-> [q \in DOMAIN cfg.srcs |-> [kind |-> IF cfg.srcs[q].kind = "gauss" THEN "src" ELSE cfg.srcs[q].kind,
                                              f |-> cfg.srcs[q].f, vols |-> cfg.srcs[q].vols, a |-> Y(cfg.srcs[q].a, {0, 125}, m.dim)]],
                    steady |-> cfg.steady, chem |-> cfg.chem, soret |-> cfg.soret, den |-> cfg.den, final |-> cfg.final,
                    dqs |-> IF WithDQ THEN [z \in 1..5 |-> PRDQ(m, Len(me.cells))] ELSE <<>>]
    /\ UNCHANGED aux
PEmit == /\ stage = 14 /\ PrintT("GEN " \o ToJson([fam |-> fam, cfg |-> cfg, aux |-> aux, pl |-> pl])) /\ UNCHANGED <<cfg, aux, pl>>
PNext == /\ ((Next1 /\ UNCHANGED pl) \/ Extrude \/ PEmit) /\ stage' = stage + 1 /\ UNCHANGED fam
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
