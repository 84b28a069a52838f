"""Builds the configurations of spec/RulesGen.tla and records how the real
Simulation receives them (accepted, or the class of the error)."""
import glob, os, shutil, tempfile
import numpy as np
import fenics as f
import festim as F

_MESH = {}


def mesh(c):
    d = c["dim"]
    if d == 1:
        return F.MeshFromVertices(np.linspace(0, 6, 13), type=c["type"])
    n = tuple(m["id"][0] for m in c["mats"])
    if (d, n) not in _MESH:
        m = f.RectangleMesh(f.Point(1, 0), f.Point(2, 1), 4, 4) if d == 2 else f.UnitCubeMesh(2, 2, 2)
        vm = f.MeshFunction("size_t", m, d, 1)
        sm = f.MeshFunction("size_t", m, d - 1, 0)
        f.CompiledSubDomain("x[0] < a + 1e-9", a=1.0 if d == 2 else 0.0).mark(sm, 1)
        f.CompiledSubDomain("x[0] > a - 1e-9", a=2.0 if d == 2 else 1.0).mark(sm, 2)
        for cell in f.cells(m):
            x = cell.midpoint().x() - (d == 2)
            vm[cell] = n[0] if len(n) == 1 or x < 0.4 else n[1] if len(n) == 2 or x < 0.7 else n[2]
        _MESH[d, n] = (m, vm, sm)
    m, vm, sm = _MESH[d, n]
    return F.Mesh(mesh=m, volume_markers=vm, surface_markers=sm, type=c["type"])


BORD = {1: [[[0, 6]]], 2: [[[0, 2]], [[2, 6]]], 3: [[[0, 2]], [[2, 3]], [[3, 4], [4, 6]]]}


def material(c, i):
    m = c["mats"][i]
    kw = {}
    if m["S"]:
        kw.update(S_0=1, E_S=0)
    if m["k"]:
        kw["thermal_cond"] = 1
    if m["cp"]:
        kw["heat_capacity"] = 1
    if m["rho"]:
        kw["rho"] = 1
    if m["Q"]:
        kw["Q"] = 1
    if m["b"]:
        b = BORD[len(c["mats"])][i]
        kw["borders"] = b[0] if len(b) == 1 else b
    ids = m["id"][0] if len(m["id"]) == 1 else list(m["id"])
    return F.Material(id=ids, D_0=1, E_D=0, name="m%d" % (i + 1), solubility_law=m["law"], **kw)


def bc(b):
    s = b["surf"][0] if len(b["surf"]) == 1 else list(b["surf"])
    k, fl = b["kind"], b["f"]
    name = "T" if fl == 100 else "nonsense" if fl == -1 else (str(fl) if b["sp"] == 1 else fl)
    if k == "dc":
        return F.DirichletBC(surfaces=s, value=1, field=name)
    if k == "flux":
        return F.FluxBC(surfaces=s, value=1, field=name)
    if k == "conv":
        return F.ConvectiveFlux(h_coeff=1, T_ext=1, surfaces=s)
    if k == "imp":
        return F.ImplantationDirichlet(surfaces=s, phi=1, R_p=1, D_0=1, E_D=0)
    if k == "recomb":
        return F.RecombinationFlux(Kr_0=1, E_Kr=0, order=1, surfaces=s)
    if k == "sk":
        return F.SurfaceKinetics(k_sb=1, k_bs=1, lambda_IS=1, n_surf=1, n_IS=1, J_vs=1, surfaces=s, initial_condition=0)
    raise KeyError(k)


def simulation(c, folder):
    sim = F.Simulation(log_level=50)
    sim.mesh = mesh(c)
    mats = [material(c, i) for i in range(len(c["mats"]))]
    sim.materials = mats
    tr = []
    for t in c["traps"]:
        ms = ["nowhere" if i == 0 else ("m%d" % i if c["byname"] else mats[i - 1]) for i in t]
        n = len(ms)
        one = lambda v: v if n == 1 else [v] * n
        tr.append(F.Trap(k_0=one(1), E_k=one(0), p_0=one(1), E_p=one(0), density=one(1), materials=ms if n > 1 else ms[0]))
    sim.traps = tr if len(tr) != 1 else tr[0]
    if c["temp"] == "given":
        sim.T = 300 if c["byname"] else F.Temperature(300)
    elif c["temp"] != "none":
        sim.T = F.HeatTransferProblem(transient=c["temp"] == "heatT", initial_condition=300 if c["tic"] else None)
    sim.boundary_conditions = [bc(b) for b in c["bcs"]]
    sim.sources = [F.Source(value=1, volume=1, field="T" if s == 100 else s) for s in c["srcs"]]
    dq = F.DerivedQuantities([F.AdsorbedHydrogen(s) for s in c["ads"]] + [F.TotalVolume("solute", 1)],
                             filename=folder + "/dq.csv", show_units=False)
    sim.exports = [dq, F.XDMFExport("solute", filename=folder + "/solute.xdmf", checkpoint=False)]
    if c["dt"]:
        sim.dt = F.Stepsize(1)
    sim.settings = F.Settings(absolute_tolerance=1e-6, relative_tolerance=1e-6, transient=not c["steady"],
                              final_time=2 if c["final"] else None, chemical_pot=c["chem"])
    return sim


def one(x):
    folder = tempfile.mkdtemp(prefix="verif-rules-")
    r = {"end": "ok", "solves": 0}
    try:
        sim = simulation(x["c"], folder)
        try:
            sim.initialise()
        except Exception as e:
            r["end"] = type(e).__name__
            r["err"] = str(e)[-900:]
        # what a refused run must not have left behind
        r["solves"] = len(glob.glob(folder + "/*")) + int(sim.t > 0)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return r


def execute(case, rec):
    rec["events"] = [one(x) for x in case["items"]]
