"""Runs one configuration of spec/PlaneGen.tla (triangles, tetrahedra)."""
import os
import numpy as np
import fenics as f
import festim as F
from obs import Probe
from suite_transport import clip, parts, LIM
import build


def dolfin_mesh(c):
    d = c["dim"]
    m = f.Mesh()
    ed = f.MeshEditor()
    ed.open(m, {2: "triangle", 3: "tetrahedron"}[d], d, d)
    ed.init_vertices(len(c["xs"]))
    ed.init_cells(len(c["cells"]))
    for i, x in enumerate(c["xs"]):
        ed.add_vertex(i, np.array([build.th(v) for v in x]))
    for e, n in enumerate(c["cells"]):
        ed.add_cell(e, np.array([v - 1 for v in n], dtype=np.uintp))
    ed.close()
    m.order()
    return m


def markers(c, m):
    d = c["dim"]
    vm = f.MeshFunction("size_t", m, d, 0)
    sm = f.MeshFunction("size_t", m, d - 1, 0)
    for e, v in enumerate(c["cv"]):
        vm[e] = v
    m.init(d - 1, 0)
    byv = {frozenset(int(v) for v in fc.entities(0)): fc.index() for fc in f.facets(m)}
    for ft in c["facets"]:
        n = [v - 1 for a, v in enumerate(c["cells"][ft["cell"] - 1]) if a != ft["opp"] - 1]
        sm[byv[frozenset(n)]] = ft["id"]
    return vm, sm


def make_mesh(c, pl):
    m = dolfin_mesh(c)
    vm, sm = markers(c, m)
    if not pl["file"]:
        return F.Mesh(m, vm, sm, type=c["geo"])
    d = os.environ["VERIF_SCRATCH"]
    vf, sf = os.path.join(d, "vol.xdmf"), os.path.join(d, "surf.xdmf")
    sm.rename("f", "f")
    f.XDMFFile(vf).write(vm)
    f.XDMFFile(sf).write(sm)
    return F.MeshFromXDMF(vf, sf, type=c["geo"])


class Reader:
    """Values per node / per cell and corner of the configuration's numbering."""

    def __init__(self, c, mesh):
        self.c, self.mesh = c, mesh
        key = lambda x: tuple(int(round(v * 1e6)) for v in x)
        node = {key([build.th(v) for v in x]): i for i, x in enumerate(c["xs"])}
        co = mesh.coordinates()
        v2n = [node[key(x)] for x in co]
        cells = {frozenset(n - 1 for n in cc): e for e, cc in enumerate(c["cells"])}
        self.order = [None] * len(c["cells"])      # cfg cell -> dolfin cell, cfg corner by coordinates
        for cell in f.cells(mesh):
            ns = frozenset(v2n[v] for v in cell.entities(0))
            self.order[cells[ns]] = cell
        self.key, self.node, self.cache = key, node, {}

    def percell(self, fn):
        V = fn.function_space()
        if V.id() not in self.cache:
            dm, el, idx = V.dofmap(), V.element(), []
            for e, cell in enumerate(self.order):
                co = el.tabulate_dof_coordinates(cell)
                dofs = dm.cell_dofs(cell.index())
                at = {self.node[self.key(x)]: int(g) for x, g in zip(co, dofs)}
                idx.append([at[n - 1] for n in self.c["cells"][e]])
            self.cache[V.id()] = (V, np.array(idx))
        return fn.vector().get_local()[self.cache[V.id()][1]]

    def nodal(self, fn):
        p = self.percell(fn)
        out = [0.0] * len(self.c["xs"])
        for e, ns in enumerate(self.c["cells"]):
            for a, n in enumerate(ns):
                out[n - 1] = p[e][a]
        return out


def cells(rd, fn):
    return [[clip(v) for v in row] for row in rd.percell(fn)]


def snap(sim, rd, split, c):
    return {"t": clip(sim.t), "u": [clip(v) for v in rd.nodal(split[0])],
            "T": [clip(v / build.T0) for v in rd.nodal(sim.T.T)],
            "tr": [cells(rd, r) for r in split[1:]]}


def execute(case, rec):
    c, aux = case["cfg"], case["aux"]
    ev = rec["events"]
    try:
        sim = build.make(c, aux, make_mesh(c, case["pl"]))
        box = {}

        def acc():
            rd, h = box["rd"], sim.h_transport_problem
            st = snap(sim, rd, parts(h.u), c)
            st["c"] = cells(rd, sim.mobile.post_processing_solution)
            st["same"] = int(all(cells(rd, t.post_processing_solution) == cells(rd, p)
                                 for t, p in zip(sim.traps, parts(h.u)[1:])))
            st["q"] = [[clip(q.data[-1] / sc), clip(q.data[-1] / sc, 1e-3)] if len(q.data) == len(ev) else [int(LIM), int(LIM)]
                       for q, sc in dqs]
            ev.append(st)
        dqs = build.make_dqs(c)
        sim.exports = [F.DerivedQuantities([q for q, _ in dqs] + [Probe(acc)])]
        sim.initialise()
        box["rd"] = Reader(c, sim.mesh.mesh)
        st = snap(sim, box["rd"], parts(sim.h_transport_problem.u_n), c)
        st["c"], st["same"], st["q"] = [], 1, []
        ev.append(st)
        sim.run()
        rec["end"] = "ok"
    except Exception as e:
        rec["end"] = type(e).__name__
        rec["err"] = str(e)[:600]
