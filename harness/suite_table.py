"""One step of a small simulation with a list of derived quantities; its table,
its file, and the answers of filter()."""
import csv, os, shutil, tempfile, warnings
import fenics as f
import festim as F


def mesh(m):
    if m["dim"] == 1:
        return F.MeshFromVertices([0, 0.25, 0.5, 0.75, 1], type=m["geo"])
    me = f.UnitSquareMesh(2, 2) if m["dim"] == 2 else f.UnitCubeMesh(2, 1, 1)
    vm = f.MeshFunction("size_t", me, me.topology().dim(), 1)
    for c in f.cells(me):
        vm[c] = 1 if c.midpoint().x() < 0.5 else 2
    sm = f.MeshFunction("size_t", me, me.topology().dim() - 1, 0)
    f.CompiledSubDomain("on_boundary && near(x[0], 0)").mark(sm, 1)
    f.CompiledSubDomain("on_boundary && near(x[0], 1)").mark(sm, 2)
    return F.Mesh(me, volume_markers=vm, surface_markers=sm, type=m["geo"])


def quantity(q, m):
    fld = 0 if q["f"] == "0" and m["fs"] == "int0" else q["f"]
    cls = getattr(F, q["cls"])
    if q["cls"] == "PointValue":
        return cls(fld, x=[0.25 * q["x"], 0.25 * q["id"], 0.5][:m["dim"]])
    if q["cls"] in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
        return cls(q["id"])
    return cls(fld, q["id"])


def execute(case, rec):
    m = case["m"]
    d = tempfile.mkdtemp()
    try:
        s = F.Simulation(log_level=50)
        s.mesh = mesh(m)
        b = [dict(borders=[0, 0.5]), dict(borders=[0.5, 1])] if m["dim"] == 1 else [{}, {}]
        s.materials = [F.Material(id=i + 1, D_0=1, E_D=0, thermal_cond=1, name="m%d" % i, **b[i]) for i in range(2)]
        s.traps = F.Trap(k_0=1, E_k=0, p_0=1, E_p=0, density=1, materials=list(s.materials))
        s.T = F.Temperature(500 + F.x)
        ads = {q["id"] for q in case["qs"] if q["cls"] == "AdsorbedHydrogen"}
        for i in (1, 2):
            if i in ads:
                s.boundary_conditions.append(F.SurfaceKinetics(k_sb=1, k_bs=1, lambda_IS=1, n_surf=1, n_IS=1, J_vs=1, surfaces=i, initial_condition=0))
            else:
                s.boundary_conditions.append(F.DirichletBC(surfaces=i, value=i, field=0))
        s.settings = F.Settings(1e-10, 1e-10, final_time=0.2)
        s.dt = F.Stepsize(0.1)
        qs = [quantity(q, m) for q in case["qs"]]
        dq = F.DerivedQuantities(list(qs), filename=os.path.join(d, "q.csv") if m["file"] else None, show_units=m["units"])
        s.exports = dq
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            s.initialise()
        texts = [str(w.message) for w in ws]
        rec["warned"] = sorted({q["cls"] for q, o in zip(case["qs"], qs) if any("may not work as intended" in t and str(type(o)) in t for t in texts)})
        s.run()
        rec["header"] = [str(v) for v in dq.data[0]]
        rec["columns"] = [[row[i + 1] for row in dq.data[1:]] == list(o.data) and list(o.t) == list(dq.t) == [row[0] for row in dq.data[1:]]
                          for i, o in enumerate(qs)]
        rec["csv"], rec["widths"] = [], []
        if m["file"]:
            with open(os.path.join(d, "q.csv"), newline="") as fh:
                rows = list(csv.reader(fh))
            rec["csv"], rec["widths"] = rows[0], [len(r) for r in rows[1:]]
        rec["found"] = []
        fq = lambda x: 0 if x == "0" and m["fs"] == "int0" else x
        for k in case["ks"]:
            kw = {}
            for name, vals in (("surfaces", k["surfaces"]), ("volumes", k["volumes"]), ("fields", [fq(x) for x in k["fields"]]), ("instances", [getattr(F, c) for c in k["inst"]])):
                if vals:
                    kw[name] = vals[0] if k["scalar"] and len(vals) == 1 else vals
            r = dq.filter(**kw)
            single = not isinstance(r, list)
            rec["found"].append({"single": single, "idx": [next(i for i, o in enumerate(qs, 1) if o is x) for x in ([r] if single else r)]})
        rec["end"] = "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)
