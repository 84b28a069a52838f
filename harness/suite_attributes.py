"""Builds one object and assigns its attributes, right and wrong values."""
import math, os
import sympy as sp
import fenics as f
import festim as F

EXT = {"TXTExport": ".txt", "DerivedQuantities": ".csv", "XDMFExport": ".xdmf", "TrapDensityXDMF": ".xdmf"}
MATS = [F.Material(id=1, D_0=1, E_D=0, name="one"), F.Material(id=2, D_0=1, E_D=0, name="two")]
SOLVERS = {1: f.NewtonSolver(), 2: f.NewtonSolver()}


def names(cls, d):
    e = EXT[cls]
    return {"good": os.path.join(d, "good" + e), "second": os.path.join(d, "second" + e), "sub": os.path.join(d, "a.b", "c" + e),
            "noext": os.path.join(d, "good"), "other": os.path.join(d, "good.dat"), "inside": os.path.join(d, "good%s.bak" % e)}


def value(cls, at, v, d):
    k, a, b, t = v["k"], v["a"], v["b"], at["t"]
    plain = {"none": None, "number": 7, "list": [3], "str": "coucou", "float": 1.5, "bool": True}
    if t in ("name", "named") and k in names(cls, d):
        return names(cls, d)[k]
    if t == "folder" and k in ("good", "second"):
        return os.path.join(d, k)
    if t == "range":
        return (a * math.pi / 4, b * math.pi / 4)
    if t == "rate" and k == "float":
        return a + 0.5 * (1 if a > 0 else -1)
    if t == "flag" and k == "bool":
        return bool(a)
    if t in ("id", "mode", "flag", "rate") and k == "int":
        return a
    if t == "mode" and k == "last":
        return "last"
    if t == "law" and k in ("henry", "sievert"):
        return k
    if t == "solver" and k == "solver":
        return SOLVERS[a]
    if t == "trapmats":
        g = {"s": "one", "m": MATS[0], "ls": ["one"], "lss": ["one", "two"], "lmm": MATS[:2], "lsm": ["one", MATS[1]],
             "lsn": ["one", 2], "lm-": [MATS[0], None], "tuple": ("one", "two")}
        if k in g:
            return list(g[k]) if isinstance(g[k], list) else g[k]
    if t == "temp":
        g = {"int": lambda: a, "float": lambda: float(a), "sym": lambda: a * F.x, "object": lambda: F.Temperature(a),
             "heat": lambda: F.HeatTransferProblem(), "stepsize": lambda: F.Stepsize(1)}
        if k in g:
            return g[k]()
    if t == "dt":
        g = {"int": lambda: a, "float": lambda: float(a), "object": lambda: F.Stepsize(a), "temperature": lambda: F.Temperature(1)}
        if k in g:
            return g[k]()
    return plain[k]


def rec3(k, a=0, b=0):
    return {"k": k, "a": int(a), "b": int(b)}


def look(cls, at, o, d):
    """what the attribute of the object holds, in the words of the specification"""
    t = at["t"]
    if t == "solub":
        return rec3("pair", o.S_0 is not None, o.E_S is not None)
    if t == "start":
        k = "file" if isinstance(o.value, str) else "num" if isinstance(o.value, (int, float)) else "sym"
        return rec3(k, o.label is not None, -1 if o.time_step is None else o.time_step)
    x = getattr(o, at["n"])
    if t in ("name", "named", "folder"):
        if x is None:
            return rec3("none")
        for k, n in (dict(good=os.path.join(d, "good"), second=os.path.join(d, "second")) if t == "folder" else names(cls, d)).items():
            if n == x:
                return rec3(k)
        return rec3("default" if x == o.label + ".xdmf" else "?")
    if t == "range":
        return rec3("pair", round(4 * x[0] / math.pi), round(4 * x[1] / math.pi))
    if t in ("id", "mode", "flag", "rate"):
        if isinstance(x, bool):
            return rec3("bool", x)
        if isinstance(x, int):
            return rec3("int", x)
        if isinstance(x, float):
            return rec3("float", math.trunc(x))
        return rec3("last" if x == "last" else "?")
    if t == "law":
        return rec3(x)
    if t == "solver":
        return rec3("none") if x is None else rec3("solver", {id(s): i for i, s in SOLVERS.items()}.get(id(x), 9))
    if t == "trapmats":
        return rec3("l" + "".join("s" if isinstance(y, str) else "m" for y in x))
    if t == "temp":
        if x is None:
            return rec3("none")
        if isinstance(x, F.HeatTransferProblem):
            return rec3("heat")
        if not isinstance(x, F.Temperature):
            return rec3("?")
        e = sp.sympify(x.value)
        return rec3("sym", sp.diff(e, F.x)) if F.x in e.free_symbols else rec3("Temperature", e)
    if t == "dt":
        return rec3("none") if x is None else rec3("Stepsize", x.initial_value) if isinstance(x, F.Stepsize) else rec3("?")
    return rec3("?")


def build(cls, attrs, vals):
    kw = dict(zip([a["n"] for a in attrs], vals))
    tr = dict(k_0=1, E_k=0, p_0=1, E_p=0)
    if cls == "Material":
        S = kw.pop("S")
        return F.Material(id=1, D_0=1, E_D=0, S_0=S[0], E_S=S[1], **kw)
    if cls == "InitialCondition":
        return F.InitialCondition(field=0, **kw["start"])
    if cls == "Trap":
        return F.Trap(density=1, **tr, **kw)
    if cls == "TXTExport":
        return F.TXTExport("solute", **kw)
    if cls == "DerivedQuantities":
        return F.DerivedQuantities([], **kw)
    if cls == "XDMFExport":
        return F.XDMFExport("solute", **kw)
    if cls == "TrapDensityXDMF":
        return F.TrapDensityXDMF(trap=F.Trap(density=1, materials="one", **tr), **kw)
    if cls == "RadioactiveDecay":
        return F.RadioactiveDecay(volume=1, **kw)
    if cls == "Simulation":
        return F.Simulation(log_level=50, temperature=kw["T"], dt=kw["dt"])
    if cls in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
        return getattr(F, cls)(**kw)
    if cls in ("HeatTransferProblem", "ExtrinsicTrap", "NeutronInducedTrap", "HTransportProblem"):
        if cls == "HeatTransferProblem":
            o = F.HeatTransferProblem()
        elif cls == "ExtrinsicTrap":
            o = F.ExtrinsicTrap(materials="one", phi_0=1, n_amax=1, n_bmax=1, eta_a=1, eta_b=1, f_a=1, f_b=1, **tr)
        elif cls == "NeutronInducedTrap":
            o = F.NeutronInducedTrap(materials="one", phi=1, K=1, n_max=1, A_0=1, E_A=1, **tr)
        else:
            o = F.HTransportProblem(F.Mobile(), F.Traps([]), None, None, [])
        o.newton_solver = kw["newton_solver"]
        return o
    return getattr(F, cls)("solute", **kw)


def execute(case, rec):
    import tempfile, shutil
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    here = os.getcwd()
    os.chdir(d)
    try:
        play(case, rec, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    rec["end"] = "ok"


def given(cls, at, v, d):
    if at["t"] == "solub":
        return (1 if v["a"] else None, 0.1 if v["b"] else None)
    if at["t"] == "start":
        return dict(value={"num": 1.0, "sym": 2 * F.x, "file": os.path.join(d, "f.xdmf")}[v["k"]],
                    label="lab" if v["a"] else None, time_step=None if v["b"] < 0 else v["b"])
    return value(cls, at, v, d)


def play(case, rec, d):
    cls, attrs, o = case["c"], case["attrs"], None
    for op in case["ops"]:
        e = dict(op)
        try:
            if op["op"] == "new":
                o = build(cls, attrs, [given(cls, at, v, d) for at, v in zip(attrs, op["vs"])])
            elif o is not None:
                at = attrs[op["i"] - 1]
                setattr(o, at["n"], given(cls, at, op["vs"][0], d))
            e["res"] = "ok"
        except (TypeError, ValueError, AttributeError, KeyError) as x:
            e["res"] = type(x).__name__
            e["msg"] = str(x)[:100]
        e["obj"] = [] if o is None else [look(cls, at, o, d) for at in attrs]
        rec["events"].append(e)
