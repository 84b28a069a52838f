"""Executes one generated stepping behaviour on the real Simulation."""
import os, shutil, tempfile
import fenics as f
import festim as F
from obs import Probe, ScriptedSolver, TooLong, q, values

SCALES = {1: 1.0, 2: 1e-9, 3: 1e-3, 4: 1e6, 5: 0.1}


def execute(case, rec):
    cfg, aux = case["cfg"], case["aux"]
    scale = SCALES[aux["scale"]]
    u = scale / 1024.0                    # one generator unit, in seconds
    mu = u / 1000.0                       # one trace unit
    ev = rec["events"]
    rt = lambda n: n * u
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    kw = {}
    if cfg["num"]:
        kw["stepsize_change_ratio"] = cfg["num"] / cfg["den"]
        if cfg["dtmin"] >= 0:
            kw["dt_min"] = rt(cfg["dtmin"])
        cap = cfg["cap"]
        if aux["capkind"] == "const":
            kw["max_stepsize"] = rt(cap[0][1])
        elif aux["capkind"] == "fn":
            def mx(t, cap=cap):
                v = None
                for frm, val in cap:
                    if t >= rt(frm):
                        v = None if val < 0 else rt(val)
                return v
            kw["max_stepsize"] = mx
        elif aux["capkind"] == "tstop":
            kw["t_stop"] = rt(cap[1][0])
            kw["stepsize_stop_max"] = rt(cap[1][1])
    miles = [rt(m) for m in cfg["miles"] if m not in aux["txt"]]
    if aux.get("shuffle"):
        miles = miles[::-1]
    stepsize = F.Stepsize(rt(cfg["init"]), milestones=miles or None, **kw)

    s = F.Simulation(log_level=50)
    s.mesh = F.MeshFromVertices([0, 1])
    s.materials = F.Material(id=1, D_0=1, E_D=0)
    s.T = F.Temperature(300 + F.t / scale)
    if aux["kind"] == "source":
        s.sources = [F.Source(1.0 / scale, volume=1, field=0)]
        s.boundary_conditions = []
    else:
        s.sources = []
        s.boundary_conditions = [F.DirichletBC(surfaces=[1, 2], value=F.t / scale, field=0)]
    s.dt = stepsize
    s.settings = F.Settings(absolute_tolerance=1e-10, relative_tolerance=1e-10,
                            final_time=rt(cfg["final"]))
    tick = scale / 1024.0 / 1000.0

    last = [0.0]

    def acc():
        c = values(s.mobile.post_processing_solution)
        c = c.max() if abs(c.max() - 0) >= abs(c.min()) else c.min()
        T = values(s.T.T).max()
        up = int(s.t > last[0])      # the recording is rounded, this is not
        last[0] = s.t
        ev.append({"e": "acc", "t": q(s.t, mu), "up": up, "c": q(c, 1 / 1024000.0),
                   "T": q(T - 300, 1 / 1024000.0)})

    dq = F.DerivedQuantities([Probe(acc)])
    s.exports = [dq]
    if aux["txt"]:
        s.exports.append(F.TXTExport("solute", os.path.join(d, "o", "c.txt"),
                                     times=[rt(x) for x in aux["txt"]]))
    end = "ok"
    try:
        s.initialise()

        def on_try(nb, ok):
            ev.append({"e": "try", "dt": q(float(s.dt.value), mu), "pos": int(float(s.dt.value) > 0), "nb": int(nb), "ok": int(ok)})
        s.h_transport_problem.newton_solver = ScriptedSolver(s, case["script"], on_try)
        s.run()
    except TooLong:
        end = "toolong"
    except Exception as e:
        end = type(e).__name__
        rec["err"] = str(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        ev.append({"e": "end", "s": end, "t": q(s.t, mu)})
