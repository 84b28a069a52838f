"""Runs one generated simulation with exports; records the accepted states and
what the files contained after each of them."""
import os, re, shutil, tempfile
import xml.etree.ElementTree as ET
import numpy as np
import fenics as f
import festim as F
from obs import Probe
import build
from suite_transport import clip, parts, LIM


def make_export(e, i, sim, d):
    where = {"cwd": "", "sub": "s/u%d/" % i, "abs": d + "/abs%d/" % i}[e["where"]]
    fld = "retention" if e["f"] == 200 else build.field(e["f"], e["fs"])
    if e["kind"] == "dq":
        qs = [F.AverageSurface("retention" if q == 200 else build.field(q, e["fs"]), surface=s) for s, q in e["qs"]]
        x = F.DerivedQuantities(qs, filename=where + "q%d.csv" % i if e["named"] else None,
                                nb_iterations_between_compute=e["every"],
                                nb_iterations_between_exports=e["wr"] or None, show_units=bool(e["label"]))
        return x, where + "q%d.csv" % i
    if e["kind"] == "txt":
        x = F.TXTExport(fld, filename=where + "p%d.txt" % i,
                        times=None if e["all"] else [build.tt(t) for t in e["times"]],
                        filter=bool(e["filt"]), write_at_last=bool(e["late"]), header_format=".4e" if build.TS[0] != 1.0 and e["hf"] == ".3f" else e["hf"])
        return x, where + "p%d.txt" % i
    kw = dict(label="lab" if e["label"] else None, filename="x%d.xdmf" % i, mode=e["every"] or "last",
              checkpoint=bool(e["ck"]), folder=where.rstrip("/") or None)
    if e["trap"]:
        x = F.TrapDensityXDMF(sim.traps[e["trap"] - 1], **kw)
    else:
        x = F.XDMFExport(str(fld), **kw)
    return x, where + "x%d.xdmf" % i


def xtimes(p):
    """[(time, label, hdf5 dataset)] of the entries of an XDMF file"""
    out = []
    for g in ET.parse(p).getroot().iter("Grid"):
        if g.attrib.get("GridType") == "Collection":
            continue
        t = g.find("Time")
        a = g.find("Attribute")
        if t is None or a is None:
            continue
        ref = [it.text.strip() for it in a.iter("DataItem") if it.text and ".h5:" in it.text]
        out.append((float(t.attrib["Value"]), a.attrib["Name"], ref))
    return out


def entry_times(e, path):
    """times of the entries of the file, -1 for a steady column; [] when absent"""
    if not os.path.exists(path):
        return []
    if e["kind"] == "xdmf":
        return [clip(t / build.TS[0]) for t, _, _ in xtimes(path)]
    with open(path) as fh:
        lines = fh.read().splitlines()
    if e["kind"] == "txt":
        out = []
        for h in lines[0].split(",")[1:]:
            m = re.match(r"t=(.*)s$", h)
            out.append(-1 if h == "t=steady" else clip(float(m.group(1)) / build.TS[0]))
        return out
    return [clip(float(r.split(",")[0]) / build.TS[0]) for r in lines[1:]]


def contents(e, x, path, sim, rd):
    sc = lambda q: build.T0 if q == 100 else 1.0
    out = {"t": entry_times(e, path), "cols": [], "x": [], "mem": [], "labels": [], "header": [], "htimes": [], "hlabels": []}
    if e["kind"] == "dq":
        out["mem"] = [clip(t / build.TS[0]) for t in x.t]
    if not os.path.exists(path):
        return out
    if e["kind"] == "txt":
        a = np.loadtxt(path, delimiter=",", skiprows=1, ndmin=2)
        out["x"] = [clip(v) for v in a[:, 0]]
        out["cols"] = [[clip(v / sc(e["f"])) for v in a[:, k]] for k in range(1, a.shape[1])]
    elif e["kind"] == "dq":
        rows = [r.split(",") for r in open(path).read().splitlines()]
        out["header"] = rows[0]
        out["cols"] = [[clip(float(r[0]) / build.TS[0])] + [clip(float(v) / sc(q)) for v, (_, q) in zip(r[1:], e["qs"])] for r in rows[1:]]
    else:
        ent = xtimes(path)
        out["labels"] = [n for _, n, _ in ent]
        try:        # what the helpers say about the file
            out["htimes"] = [clip(t / build.TS[0]) for t in F.extract_xdmf_times(path)]
            out["hlabels"] = list(F.extract_xdmf_labels(path))
        except Exception as err:
            out["hlabels"] = ["helpers failed: %s" % err]
        mesh = sim.mesh.mesh
        for k, (_, name, ref) in enumerate(ent):
            if e["ck"]:
                fs = x.function.function_space()
                el = fs.ufl_element()
                V = f.FunctionSpace(mesh, el.family(), el.degree())
                u = f.Function(V)
                with f.XDMFFile(path) as fh:
                    fh.read_checkpoint(u, name, k)
                vals = rd.percell(u)
            else:
                h5, ds = ref[-1].split(":", 1)
                v = f.Vector(f.MPI.comm_world)
                with f.HDF5File(f.MPI.comm_world, os.path.join(os.path.dirname(path), h5), "r") as fh:
                    fh.read(v, ds, False)
                a = v.get_local()
                vals = np.array([[a[i] for i in sorted(c.entities(0), key=lambda i: mesh.coordinates()[i][0])]
                                 for c in rd.cells])
            out["cols"].append([[clip(p / sc(0 if e["trap"] else e["f"])), clip(q / sc(0 if e["trap"] else e["f"]))] for p, q in vals])
    return out


def execute(case, rec):
    c, aux = case["cfg"], case["aux"]
    ev = rec["events"]
    old = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        sim = build.make(c, aux)
        box = {}
        exps = [make_export(e, i, sim, d) for i, e in enumerate(case["exps"])]

        def acc():
            rd = box["rd"]
            pc = lambda fn, s=1.0: [[clip(a / s), clip(b / s)] for a, b in rd.percell(fn)]
            ps = parts(sim.h_transport_problem.u)
            T = rd.nodal(sim.T.T)
            ev.append({"t": clip(sim.t / build.TS[0]), "c": pc(sim.mobile.post_processing_solution),
                       "T": [clip(v / build.T0) for v in T], "tr": [pc(p) for p in ps[1:1 + len(c["traps"])]],
                       "obs": [entry_times(e, p) for e, (_, p) in zip(case["exps"], exps)]})
        sim.exports = [x for x, _ in exps] + [F.DerivedQuantities([Probe(acc)])]
        sim.initialise()
        box["rd"] = build.Reader(sim)
        sim.run()
        rec["out"] = [contents(e, x, p, sim, box["rd"]) for e, (x, p) in zip(case["exps"], exps)]
        rec["end"] = "ok"
    except Exception as e:
        import traceback
        rec["end"] = type(e).__name__
        rec["err"] = traceback.format_exc()[-900:]
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
