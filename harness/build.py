"""Builds a festim.Simulation from a configuration generated by
spec/TransportGen.tla (numbers in thousandths, temperature in units of T0)."""
import math
import numpy as np
import fenics as f
import festim as F

T0 = 500.0
K_B = 8.617333262e-5      # eV/K (CODATA)
LN2 = math.log(2.0)


TS = [1.0]     # length of a unit of time in seconds


def tt(v):
    return v / 1000.0 * TS[0]


def th(v):
    return v / 1000.0


def E(j):
    return th(j) * K_B * T0 * LN2


def lin(a, scale=1.0):
    """a + b x + d t; a plain number when it is one."""
    e = scale * th(a[0])
    if a[1]:
        e = e + scale * th(a[1]) * F.x
    if a[2]:
        e = e + scale * th(a[2]) * (F.t if TS[0] == 1.0 else F.t / TS[0])
    for k, sym in zip(a[3:], (F.y, F.z)):       # 2D and 3D (spec/Plane.tla)
        if k:
            e = e + scale * th(k) * sym
    return e


class Linear(f.UserExpression):
    """a + b x + d t, evaluated in Python"""

    def __init__(self, co, ct, **kw):
        super().__init__(**kw)
        self.co, self.ct, self.t = co, ct, 0

    def eval(self, value, x):
        value[0] = self.co[0] + self.ct * self.t + sum(k * v for k, v in zip(self.co[1:], x))

    def value_shape(self):
        return ()


def val(a, how, scale=1.0, mesh=None):
    """the same function as a number or sympy expression, fenics.Expression,
    fenics.UserExpression or, where a mesh is given and it does not change in
    time, fenics.Function"""
    if how in ("", "sym"):
        return lin(a, scale)
    co = [scale * th(k) for k in [a[0], a[1]] + list(a[3:])]
    ct = scale * th(a[2]) / TS[0]
    code = "%r" % co[0] + "".join(" + %r*x[%d]" % (k, i) for i, k in enumerate(co[1:]) if k)
    if how == "func" and mesh is not None and not ct:
        return f.interpolate(f.Expression(code, degree=1), f.FunctionSpace(mesh, "CG", 1))
    if how == "uexpr":
        return Linear(co, ct, degree=1)
    if not ct:
        return f.Expression(code, degree=1)
    return f.Expression(code + " + %r*t" % ct, t=0, degree=1)


def tprop(a):
    if a[1] == 0:
        return th(a[0])
    return lambda T: th(a[0]) + th(a[1]) / T0 * T


def one(lst):
    return lst[0] if len(lst) == 1 else list(lst)


TID = [[]]          # ids of the traps, by position


def set_ids(c):
    n = len(c["traps"])
    TID[0] = [{0: i, 1: n + 1 - i, 2: i + 3}[c.get("ids", 0)] for i in range(1, n + 1)]


def field(fld, fs):
    """the spellings of a field"""
    if 0 < fld < 100:
        fld = TID[0][fld - 1]
    if fld == 100:
        return "T"
    if fld == 0:
        return {"int": 0, "str": "0", "solute": "solute"}[fs]
    return str(fld) if fs == "str" else fld


def vertices(c):
    x = [th(c["x0"])]
    for h in c["h"]:
        x.append(x[-1] + th(h))
    return x


def customf():
    def fun(T, solute, prm1, prm2):
        return -prm2 * solute * T / T0 + prm1
    return fun


def kt(b):
    """prefactor, possibly a function of time"""
    return lin([b["k"], 0, b["kt"]])


def jt(b):
    e = E(b["j"])
    return e + E(b["jt"]) * F.t if b["jt"] else e


def customt(k):
    def fun(T, solute, prm1):
        return -k * T + prm1
    return fun


def customd(k):
    def fun(T, prm1):
        return k * T / T0 + prm1
    return fun


def const_fn(k0, j):
    def fun(T, surf_conc, mobile_conc, **prms):
        return k0 * f.exp(-j / K_B / T)
    return fun


def ksb_fn(k0, j):
    def fun(T, surf_conc, mobile_conc, prm1, prm2):
        return k0 * f.exp(-j / K_B / T) * (1 + 0.25 * mobile_conc)
    return fun


def kbs_fn(k0, j):
    def fun(T, surf_conc, mobile_conc, prm1, prm2):
        return k0 * f.exp(-j / K_B / T) * (1 + prm2 * surf_conc)
    return fun


def jvs_fn():
    def fun(T, surf_conc, mobile_conc, prm1, prm2):
        return prm1 - 0.25 * surf_conc - 0.125 * mobile_conc
    return fun


def prm_fn():
    def fun(T, surf_conc, mobile_conc, prm1):
        return prm1
    return fun


def make_bc(b, fs, traps):
    s = b["surf"][0] if len(b["surf"]) == 1 else list(b["surf"])
    k = b["kind"]
    fld = field(b["f"], fs)
    if b["f"] == 100:
        if k == "dc":
            return F.DirichletBC(surfaces=s, value=lin(b["a"], T0), field="T")
        if k == "flux":
            return F.FluxBC(surfaces=s, value=lin(b["a"], T0), field="T")
        if k == "conv":
            return F.ConvectiveFlux(h_coeff=kt(b), T_ext=lin(b["a"], T0), surfaces=s)
        if k == "customt":
            return F.CustomFlux(surfaces=s, function=customt(th(b["k"])), field="T", prm1=lin(b["a"], T0))
    if k == "dc":
        return F.DirichletBC(surfaces=s, value=lin(b["a"]), field=fld)
    if k == "customd":
        return F.CustomDirichlet(surfaces=s, function=customd(th(b["k"])), field=fld, prm1=lin(b["a"]))
    if k == "sieverts":
        return F.SievertsBC(surfaces=s, S_0=th(b["k"]), E_S=E(b["j"]), pressure=lin(b["a"]))
    if k == "henrys":
        return F.HenrysBC(surfaces=s, H_0=th(b["k"]), E_H=E(b["j"]), pressure=lin(b["a"]))
    if k == "imp":
        kw = {}
        if b["kr"][0]:
            kw.update(Kr_0=th(b["kr"][0]), E_Kr=E(b["kr"][1]))
            if b["kd"][0]:
                kw.update(Kd_0=th(b["kd"][0]), E_Kd=E(b["kd"][1]), P=lin(b["pr"]))
        return F.ImplantationDirichlet(surfaces=s, phi=lin(b["a"]), R_p=lin(b["rp"]),
                                       D_0=th(b["k"]), E_D=E(b["j"]), **kw)
    if k == "flux":
        return F.FluxBC(surfaces=s, value=lin(b["a"]), field=fld)
    if k == "recomb":
        return F.RecombinationFlux(Kr_0=kt(b), E_Kr=jt(b), order=b["order"], surfaces=s)
    if k == "dissoc":
        return F.DissociationFlux(Kd_0=kt(b), E_Kd=jt(b), P=lin(b["a"]), surfaces=s)
    if k == "mass":
        return F.MassFlux(h_coeff=kt(b), c_ext=lin(b["a"]), surfaces=s)
    if k == "customf":
        return F.CustomFlux(surfaces=s, function=customf(), field=fld, prm1=lin(b["a"]), prm2=kt(b))
    if k == "sk":
        if b["fn"]:
            # rates that depend on both concentrations and on two parameters
            ksb, kbs = ksb_fn(th(b["ksb"][0]), E(b["ksb"][1])), kbs_fn(th(b["kbs"][0]), E(b["kbs"][1]))
            jvs, prm = jvs_fn(), dict(prm1=lin(b["a"]), prm2=0.5)
        else:
            ksb, kbs = const_fn(th(b["ksb"][0]), E(b["ksb"][1])), const_fn(th(b["kbs"][0]), E(b["kbs"][1]))
            if b["ksb"][1] == 0:
                ksb = th(b["ksb"][0])
            if b["kbs"][1] == 0:
                kbs = th(b["kbs"][0])
            jvs, prm = prm_fn(), dict(prm1=lin(b["a"]))
            if b["a"][1] == 0 and b["a"][2] == 0:
                jvs = th(b["a"][0])
        return F.SurfaceKinetics(k_sb=ksb, k_bs=kbs, lambda_IS=th(b["lam"]), n_surf=th(b["nsurf"]),
                                 n_IS=th(b["nis"]), J_vs=jvs, surfaces=s, initial_condition=th(b["ini"]), **prm)
    raise KeyError(k)


def make_materials(c, aux):
    mats = []
    flat = "dim" not in c
    multi = flat and (len(c["mats"]) > 1 or len(c["mats"][0]["ids"]) > 1 or aux.get("borders"))
    x = vertices(c) if flat else []
    runs = {}
    e = 0
    while flat and e < len(c["cv"]):
        g = e
        while g + 1 < len(c["cv"]) and c["cv"][g + 1] == c["cv"][e]:
            g += 1
        runs.setdefault(c["cv"][e], []).append([x[e], x[g + 1]])
        e = g + 1
    heat = c["temp"]["kind"] in ("transient", "steady")
    for i, m in enumerate(c["mats"]):
        kw = {}
        if multi:
            b = [r for v in m["ids"] for r in runs.get(v, [])]
            kw["borders"] = b[0] if len(b) == 1 else b
        if c["chem"]:
            kw.update(S_0=th(m["S"]), E_S=E(m["jS"]), solubility_law=m["law"])
        if heat:
            kw["thermal_cond"] = tprop(m["k"])
            if c["temp"]["kind"] == "transient":
                kw.update(heat_capacity=tprop(m["cp"]), rho=tprop(m["rho"]))
        if c["soret"]:
            q, q1 = th(m["Q"][0]) * K_B * T0, th(m["Q"][1]) * K_B
            kw["Q"] = (lambda T, q=q, q1=q1: q + q1 * T) if q1 or aux.get("order") else q
        ids = m["ids"][0] if len(m["ids"]) == 1 else list(m["ids"])
        mats.append(F.Material(id=ids, D_0=th(m["D"]), E_D=E(m["jD"]), name="mat%d" % (i + 1), **kw))
    return mats


def make_traps(c, aux, mats):
    out = []
    how = aux.get("how", "")
    set_ids(c)
    for n, t in enumerate(c["traps"]):
        ms = [mats[i - 1] if aux["ref"] == "obj" else "mat%d" % i for i in t["mats"]]
        ms = ms[0] if len(ms) == 1 else ms
        k, jk, p, jp = [th(x) for x in t["k"]], [E(x) for x in t["jk"]], [th(x) for x in t["p"]], [E(x) for x in t["jp"]]
        common = dict(k_0=one(k), E_k=one(jk), p_0=one(p), E_p=one(jp), materials=ms, **({"id": TID[0][n]} if c.get("ids") else {}))
        d = t["d"]
        tol = dict(absolute_tolerance=1e-11, relative_tolerance=1e-11)
        if t["kind"] == "trap":
            out.append(F.Trap(density=one([val(n, how) for n in t["n"]]), **common))
        elif t["kind"] == "extrinsic":
            out.append(F.ExtrinsicTrap(phi_0=val(d["phi"], how), n_amax=val(d["na"], how), n_bmax=lin(d["nb"]),
                                       eta_a=th(d["ea"]), eta_b=f.Constant(th(d["eb"])) if how else th(d["eb"]),
                                       f_a=val(d["fa"], how), f_b=lin(d["fb"]),
                                       **tol, **common))
        else:
            out.append(F.NeutronInducedTrap(phi=val(d["phi"], how), K=f.Constant(th(d["K"])) if how else th(d["K"]), n_max=th(d["nmax"]),
                                            A_0=th(d["A"]), E_A=E(d["jA"]), **tol, **common))
    return out


def make_sources(c, aux, mesh=None):
    out = []
    how = aux.get("how", "")
    for q in c["srcs"]:
        fld = "all" if q["f"] == -1 else field(q["f"], aux["fs"])
        vols = [one(q["vols"])] if aux.get("vols", "list") == "list" else list(q["vols"])
        for v in vols:
            if q["kind"] == "decay":
                out.append(F.RadioactiveDecay(decay_constant=th(q["a"][0]), volume=v, field=fld))
            elif q["kind"] == "gauss":
                out.append(F.ImplantationFlux(flux=lin(q["a"]), imp_depth=lin(q["mu"]), width=th(q["w"]), volume=v))
            else:
                out.append(F.Source(value=val(q["a"], how, T0 if q["f"] == 100 else 1.0, mesh), volume=v, field=fld))
    return out


def make(c, aux, mesh=None):
    TS[0] = 1e-9 if aux.get("tsc") else 1.0
    set_ids(c)
    s = F.Simulation(log_level=50)
    if mesh is None:
        vx = vertices(c)
        mesh = F.MeshFromVertices(vx[::-1] if aux.get("order") else vx, type=c["geo"])
    s.mesh = mesh
    mats = make_materials(c, aux)
    s.materials = mats[0] if len(mats) == 1 and aux.get("how") else mats
    tk = c["temp"]["kind"]
    if tk == "given":
        v = lin(c["temp"]["a"], T0)
        s.T = v if aux.get("how") else F.Temperature(v)
    elif tk == "transient":
        a = c["temp"]["a"]
        ini = lin([a[0], a[1], 0] + a[3:], T0)
        s.T = F.HeatTransferProblem(transient=True,
                                    initial_condition=F.InitialCondition("T", ini) if aux.get("how") else ini,
                                    absolute_tolerance=1e-9 / TS[0], relative_tolerance=1e-12)
    else:
        s.T = F.HeatTransferProblem(transient=False, absolute_tolerance=1e-9, relative_tolerance=1e-12)
    s.traps = make_traps(c, aux, mats)
    if aux.get("how") and len(s.traps) == 1:
        s.traps = s.traps[0]
    s.initial_conditions = [F.InitialCondition(field=field(i["f"], aux["fs"]), value=lin(i["a"])) for i in c["ics"]]
    s.boundary_conditions = [make_bc(b, aux["fs"], s.traps) for b in c["bcs"]]
    if aux.get("order"):
        sk = [b for b in s.boundary_conditions if isinstance(b, F.SurfaceKinetics)]
        if len(sk) < 2:
            s.boundary_conditions = s.boundary_conditions[::-1]
    s.sources = make_sources(c, aux, getattr(mesh, "mesh", None))
    if not c["steady"]:
        kw = {}
        if aux["ratio"]:
            # growth is driven by easy solves; the cap keeps dt in {dt, 2 dt, 4 dt}
            kw = dict(stepsize_change_ratio=aux["ratio"], max_stepsize=4 * tt(aux["dt"]), dt_min=1e-6 * TS[0])
        s.dt = F.Stepsize(initial_value=tt(aux["dt"]), **kw) if kw or not aux.get("how") else tt(aux["dt"])
    s.settings = F.Settings(absolute_tolerance=1e-11 / TS[0], relative_tolerance=1e-12, maximum_iterations=60,
                            transient=not c["steady"], final_time=None if c["steady"] else tt(c["final"]),
                            chemical_pot=c["chem"], soret=c["soret"], traps_element_type=c["el"],
                            update_jacobian=bool(aux["jac"]))
    return s


def make_dqs(c):
    """[(quantity, scale of its values)]"""
    set_ids(c)
    out = []
    suf = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[c["geo"]]
    x = vertices(c) if "dim" not in c else None
    for q in c["dqs"]:
        k = q["k"]
        fld = "retention" if q["f"] == 200 else field(q["f"], q["fs"])
        kw = {}
        if suf and k in ("totvol", "totsurf", "flux") and q["half"]:
            kw["azimuth_range"] = (0, math.pi)
            if suf == "Spherical":
                kw["polar_range"] = (0, math.pi / 2)
                if k == "flux":      # here the two angles have each other's name
                    kw = dict(azimuth_range=(0, math.pi / 2), polar_range=(0, math.pi))
        cls = {"totvol": "TotalVolume" + suf, "avgvol": "AverageVolume" + suf, "maxvol": "MaximumVolume",
               "minvol": "MinimumVolume", "totsurf": "TotalSurface" + suf, "avgsurf": "AverageSurface" + suf,
               "maxsurf": "MaximumSurface", "minsurf": "MinimumSurface", "flux": "SurfaceFlux" + suf,
               "point": "PointValue", "ads": "AdsorbedHydrogen"}[k]
        if k == "ads":
            o = F.AdsorbedHydrogen(surface=q["id"])
        elif k == "flux" and not suf and q["half"]:
            o = F.ThermalFlux(surface=q["id"]) if q["f"] == 100 else F.HydrogenFlux(surface=q["id"])
        elif k == "point":
            e = q["x"][0] - 1
            if x is None:          # the centre of a cell
                co = [c["xs"][n - 1] for n in c["cells"][e]]
                o = F.PointValue(fld, x=[th(sum(v) / len(co)) for v in zip(*co)])
                out.append((o, T0 if q["f"] == 100 else 1.0))
                continue
            p = x[e] + th(q["x"][1]) * (x[e + 1] - x[e])
            o = F.PointValue(fld, x=p if q["half"] else [p])
        elif k.endswith("vol"):
            o = getattr(F, cls)(fld, volume=q["id"], **kw)
        else:
            o = getattr(F, cls)(fld, surface=q["id"], **kw)
        out.append((o, T0 if q["f"] == 100 and k != "ads" else 1.0))
    return out


class Reader:
    """Reads nodal values, ordered by coordinate."""

    def __init__(self, sim):
        mesh = sim.mesh.mesh
        self.mesh = mesh
        self.cells = sorted(f.cells(mesh), key=lambda k: k.midpoint().x())
        self.cache = {}

    def percell(self, fn):
        """[[left, right], ...] of a P1 function (continuous or not)."""
        V = fn.function_space()
        key = V.id()
        if key not in self.cache:
            dm, el, idx = V.dofmap(), V.element(), []
            for c in self.cells:
                co = el.tabulate_dof_coordinates(c)[:, 0]
                d = dm.cell_dofs(c.index())
                idx.append([int(d[int(np.argmin(co))]), int(d[int(np.argmax(co))])])
            self.cache[key] = (V, np.array(idx))
        return fn.vector().get_local()[self.cache[key][1]]

    def nodal(self, fn):
        p = self.percell(fn)
        return np.append(p[:, 0], p[-1, 1])

    def scalar(self, fn):
        V = fn.function_space()
        return float(fn.vector().get_local()[V.dofmap().cell_dofs(0)[0]])
