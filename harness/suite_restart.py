"""Runs a configuration, then restarts it from its checkpoints."""
import os, shutil, tempfile
import festim as F
from obs import Probe
from suite_transport import clip, parts, snap
import build


def names(c):
    build.set_ids(c)
    return ["solute"] + [str(k) for k in build.TID[0]] + ["T"]


def simulate(c, aux, plan, d, ics=None, T=None, final=None, out=None, tag="a"):
    """One run; checkpoints of all fields go to <d>/<tag>_<field>.xdmf."""
    sim = build.make(c, aux)
    if ics is not None:
        sim.initial_conditions = ics
    if T is not None:
        sim.T = T
    if final is not None:
        sim.settings.final_time = final
    ev, box = [], {}

    def acc():
        ev.append(snap(sim, box["rd"], parts(sim.h_transport_problem.u), c))
    files = {}
    exports = []
    for n in names(c):
        fn = "%s_%s.xdmf" % (tag, n)
        kw = dict(label="ck_" + n) if plan["label"] else {}
        if plan["abs"]:
            e = F.XDMFExport(n, filename=os.path.join(d, fn), mode=plan["mode"], **kw)
        else:
            e = F.XDMFExport(n, filename=fn, folder=d, mode=plan["mode"], **kw)
        files[n] = (os.path.join(d, fn), e.label)
        exports.append(e)
    sim.exports = exports + [F.DerivedQuantities([Probe(acc)])]
    sim.initialise()
    box["rd"] = build.Reader(sim)
    ev.append(snap(sim, box["rd"], parts(sim.h_transport_problem.u_n), c))
    out.append(ev)
    sim.run()
    return files


def restart(c, aux, plan, files, idx):
    ics = [F.InitialCondition(field=build.field(i, aux["fs"]), value=files[n][0], label=files[n][1], time_step=idx)
           for i, n in enumerate(names(c)[:-1])]
    T = None
    fn, lab = files["T"]
    if c["temp"]["kind"] == "transient":
        T = F.HeatTransferProblem(transient=True, absolute_tolerance=1e-9, relative_tolerance=1e-12,
                                  initial_condition=F.InitialCondition(field="T", value=fn, label=lab, time_step=idx))
    elif plan["tfile"]:
        T = F.TemperatureFromXDMF(fn, lab)
    return ics, T


def execute(case, rec):
    c, aux, plan = case["cfg"], case["aux"], case["plan"]
    if plan["tfile"] and c["temp"]["kind"] != "transient":
        # thermal conditions need a heat problem
        cb = dict(c, bcs=[b for b in c["bcs"] if b["f"] != 100], srcs=[s for s in c["srcs"] if s["f"] != 100])
    else:
        cb = c
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    out = []
    rec["times"], rec["labels"] = [], 1
    try:
        dt = build.th(aux["dt"])
        fa = simulate(c, aux, plan, d, out=out, tag="a")
        rec["times"] = [[clip(t) for t in F.extract_xdmf_times(fn)] for fn, _ in fa.values()]
        rec["labels"] = int(all(F.extract_xdmf_labels(fn) == [lab] for fn, lab in fa.values()))
        ics, T = restart(c, aux, plan, fa, plan["idx"])
        left = plan["n"] - plan["k"]
        fb = simulate(cb, aux, plan, d, ics, T, left * dt, out, "b")
        if plan["runs"] == 2:
            ics, T = restart(c, aux, plan, fb, plan["idx2"])
            simulate(cb, aux, plan, d, ics, T, (left - plan["k2"]) * dt, out, "d")
        rec["end"] = "ok"
    except Exception as e:
        rec["end"] = type(e).__name__
        rec["err"] = str(e)[:600]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec["events"] = out
