"""Builds 1D layouts with the real meshes and materials; records markers."""
import numpy as np
import fenics as f
import festim as F

UNIT = {"one": 1.0, "micro": 1e-6, "tenth": 0.1, "nano": 1e-9}


def one(g):
    u = UNIT[g["unit"]]
    pos = lambda k: k * u
    mats = []
    for i, m in enumerate(g["mats"]):
        b = [[pos(lo), pos(hi)] for lo, hi in m["b"]]
        if m["none"]:
            b = None
        elif len(b) == 1 and not m["nest"]:
            b = b[0]
        ids = list(m["id"]) if len(m["id"]) > 1 else m["id"][0]
        mats.append(F.Material(id=ids, D_0=1, E_D=0, borders=b))
    r = {"cells": [], "facets": [], "lens": [], "ends": [0, 0]}
    try:
        mesh = F.MeshFromVertices([pos(v) for v in g["verts"]])
        mesh.define_measures(F.Materials(mats))
    except Exception as e:
        r["end"] = type(e).__name__
        r["err"] = str(e)[:200]
        return r
    q = lambda x: int(round(x / u))
    for c in f.cells(mesh.mesh):
        x = sorted(v.point().x() for v in f.vertices(c))
        r["cells"].append([q(x[0]), q(x[1]), int(mesh.volume_markers[c])])
    r["cells"].sort()
    for c in f.facets(mesh.mesh):
        r["facets"].append([q(c.midpoint().x()), int(mesh.surface_markers[c])])
    one_ = f.Constant(1.0)
    for i in sorted({i for m in g["mats"] for i in m["id"]}):
        r["lens"].append([i, int(round(f.assemble(one_ * mesh.dx(i)) / u * 1000))])
    r["ends"] = [int(round(f.assemble(one_ * mesh.ds(i)))) for i in (1, 2)]
    r["end"] = "ok"
    return r


def execute(case, rec):
    rec["events"] = [one(x["g"]) for x in case["items"]]
