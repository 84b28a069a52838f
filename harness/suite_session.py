"""Plays a session (edits, initialise(), run() on one or two simulations) on the
real code; a session without operations is a fresh run of one configuration."""
import inspect, os, shutil, tempfile
import festim as F
from obs import Probe
import build
from suite_transport import clip, snap, parts


def flat(x):
    out = []
    for v in x:
        out.extend(flat(v) if isinstance(v, (list, tuple)) else [v])
    return out


def needs(c):
    return (c["chem"], c["soret"], c["temp"]["kind"])


class Interrupted(Exception):
    pass


class Sim:
    stopping = False

    def __init__(self, c, a, d, n):
        self.c, self.a, self.d, self.n = c, a, d, n
        self.sim = build.make(c, a)
        self.exports()

    def exports(self):
        pre = "%s/s%d" % (self.d, self.n)
        self.dqs = build.make_dqs(self.c)
        self.dq = F.DerivedQuantities([q for q, _ in self.dqs], filename=pre + "q.csv")
        self.probe = F.DerivedQuantities([Probe(self.acc)])
        self.sim.exports = [F.TXTExport("solute", filename=pre + "p.txt", times=self.times()),
                            F.XDMFExport("solute", filename="s%dx.xdmf" % self.n, folder=self.d, mode=2, checkpoint=False),
                            F.XDMFExport("T", filename="s%dT.xdmf" % self.n, folder=self.d, mode="last"), self.dq, self.probe]
        self.adjust()

    def times(self):
        times = [build.th(t) for t in self.a.get("txt", [])]
        return times if times and not self.c["steady"] else None

    def adjust(self):
        """the same export objects, other attributes"""
        e, pre = self.a.get("ex", 0), "%s/s%d" % (self.d, self.n)
        txt, xs, xT = list(self.sim.exports)[:3]
        txt.filename = pre + ("p.txt" if e < 2 else "b/other.txt")
        txt.write_at_last = e == 3
        xs.folder, xs.filename = (self.d, "s%dx.xdmf" % self.n) if e != 1 else (pre + "c", "y.xdmf")
        xs.mode, xs.label = [2, 1, "last", 3][e], "c%d" % e
        xT.field, xT.mode = ("T", "last") if e < 3 else ("retention", 1)
        self.dq.filename = pre + ["q.csv", "d/q.csv", "q.csv", "r.csv"][e]
        self.dq.nb_iterations_between_compute = [1, 2, 1, 2][e]
        self.dq.nb_iterations_between_exports = [None, 2, 1, None][e]
        self.files = [txt.filename, xs.folder + "/" + xs.filename, xT.folder + "/" + xT.filename]

    def acc(self):
        s = self.sim
        if self.stopping:
            raise Interrupted()
        st = snap(s, self.rd, parts(s.h_transport_problem.u), self.c)
        v = [st["t"]] + flat([st["u"], st["T"], st["tr"], st["n"], st["cs"]])
        self.vecs.append(v + flat([[clip(p), clip(q)] for p, q in self.rd.percell(s.mobile.post_processing_solution)]))

    def init(self):
        self.err = None
        self.vecs = []
        try:
            self.sim.initialise()
            self.rd = build.Reader(self.sim)
            st = snap(self.sim, self.rd, parts(self.sim.h_transport_problem.u_n), self.c)
            self.vecs.append([st["t"]] + flat([st["u"], st["T"], st["tr"], st["n"], st["cs"]]))
        except Exception as e:
            self.err = e

    def stop(self):
        """run(), interrupted while its first step is post-processed"""
        self.stopping = True
        try:
            if self.err is None:
                self.sim.run()
        except Interrupted:
            pass
        except Exception:          # a configuration that fails by itself
            pass
        self.stopping = False
        for p in self.files + [self.dq.filename]:
            if os.path.exists(p):
                os.remove(p)

    def go(self):
        from suite_exports import entry_times
        got = {"end": "ok", "vecs": [], "quants": [], "files": []}
        if self.err is None:
            try:
                self.sim.run()
            except Exception as e:
                self.err = e
        if self.err is not None:
            import traceback
            got["end"] = type(self.err).__name__
            got["err"] = "".join(traceback.format_exception(self.err))[-700:]
            return got
        got["vecs"] = self.vecs
        got["quants"] = [[clip(t) for t in self.dq.t]] + [[clip(v / sc) for v in q.data] for q, sc in self.dqs]
        import numpy as np
        txt, ncol = [], 0
        if os.path.exists(self.files[0]):
            txt = np.loadtxt(self.files[0], delimiter=",", skiprows=1, ndmin=2).ravel()
            ncol = len(open(self.files[0]).readline().split(","))
        csv = np.loadtxt(self.dq.filename, delimiter=",", skiprows=1, ndmin=2) if os.path.exists(self.dq.filename) else []
        sc = [1.0] + [s for _, s in self.dqs]
        got["files"] = [[clip(v) for v in txt], [ncol],
                        [clip(v / s) for row in csv for v, s in zip(row, sc)]]
        for p in self.files[1:]:
            got["files"].append(entry_times({"kind": "xdmf"}, p) if os.path.exists(p) else [])
        for p in self.files + [self.dq.filename]:     # what later runs leave untouched is not theirs
            if os.path.exists(p):
                os.remove(p)
        return got

    # ------------------------------------------------------------------ edits
    def edit(self, part, how, c, a):
        old, s = self.c, self.sim
        self.c, self.a = c, a
        fresh = build.make(c, a)          # source of new objects
        inplace = how == "inplace"
        if part == "none":
            return
        if part == "all":
            for k in ("mesh", "materials", "T", "traps", "boundary_conditions", "sources", "initial_conditions", "dt", "settings"):
                setattr(s, k, getattr(fresh, k))
            self.exports()
            return
        if part == "mats" or needs(c) != needs(old):
            if inplace:
                for m, g in zip(s.materials, fresh.materials):
                    for k in ("D_0", "E_D", "S_0", "E_S", "solubility_law", "thermal_cond", "heat_capacity", "rho", "Q", "borders", "id"):
                        setattr(m, k, getattr(g, k))
            else:
                s.materials = fresh.materials
                if a["ref"] == "obj":      # traps that name their materials stay
                    s.traps = fresh.traps
        if part == "temp":
            if inplace and c["temp"]["kind"] == "given" == old["temp"]["kind"]:
                s.T.value = fresh.T.value
            elif inplace and c["temp"]["kind"] == "transient" == old["temp"]["kind"]:
                s.T.initial_condition = fresh.T.initial_condition
            else:
                s.T = fresh.T
        elif part == "traps":
            if inplace and len(s.traps) == len(fresh.traps) and all(type(x) is type(y) is F.Trap for x, y in zip(s.traps, fresh.traps)):
                for x, y in zip(s.traps, fresh.traps):
                    x.k_0, x.E_k, x.p_0, x.E_p = y.k_0, y.E_k, y.p_0, y.E_p
                    x.density, x.materials = y.density, [s.materials[i - 1].name for i in self.c["traps"][s.traps.index(x)]["mats"]]
            else:
                # traps refer to the materials the simulation has now
                s.traps = build.make_traps(c, a, list(s.materials))
        elif part == "swap":          # the same objects
            if inplace:
                s.traps.reverse()
            else:
                s.traps = list(s.traps)[::-1]
        elif part == "drop":
            if inplace:
                s.traps.pop(0)
            else:
                s.traps = list(s.traps)[1:]
        elif part == "bcs":
            old_b, new_b = s.boundary_conditions, fresh.boundary_conditions
            if inplace and len(old_b) == len(new_b) and all(alike(x, y) for x, y in zip(old_b, new_b)):
                for x, y in zip(old_b, new_b):
                    copy_args(x, y)
            elif inplace:
                s.boundary_conditions[:] = new_b
            else:
                s.boundary_conditions = new_b
        elif part == "srcs":
            if inplace and len(s.sources) == len(fresh.sources) and all(type(x) is type(y) for x, y in zip(s.sources, fresh.sources)):
                for x, y in zip(s.sources, fresh.sources):
                    copy_args(x, y)
            else:
                s.sources = fresh.sources
        elif part == "ics":
            if inplace:
                s.initial_conditions[:] = fresh.initial_conditions
            else:
                s.initial_conditions = fresh.initial_conditions
        elif part == "txt" and inplace:
            s.exports[0].times = self.times()
        elif part == "exps" and inplace:
            self.adjust()
        elif part == "dqs" and inplace:
            self.dqs = build.make_dqs(c)
            self.dq.clear()
            self.dq.extend([q for q, _ in self.dqs])
        elif part in ("dqs", "txt", "exps"):
            self.exports()
        elif part == "mesh":
            if inplace:
                s.mesh.vertices = fresh.mesh.vertices
                s.mesh.generate_mesh_from_vertices()
            else:
                s.mesh = fresh.mesh
            self.exports()
        elif part == "time":
            if inplace:
                s.settings.final_time = fresh.settings.final_time
                s.dt.initial_value, s.dt.adaptive_stepsize = fresh.dt.initial_value, fresh.dt.adaptive_stepsize
            else:
                s.settings, s.dt = fresh.settings, fresh.dt
        elif part in ("steady", "transient"):
            if inplace:
                s.settings.transient, s.settings.final_time = not c["steady"], fresh.settings.final_time
            else:
                s.settings = fresh.settings
            s.dt = fresh.dt
            if a["txt"]:
                self.exports()
        elif part in ("soret", "el", "chem"):
            if inplace:
                s.settings.soret, s.settings.traps_element_type = c["soret"], c["el"]
                s.settings.chemical_pot = c["chem"]
            else:
                s.settings = fresh.settings


def args(x):
    return [p for p in inspect.signature(type(x).__init__).parameters if p not in ("self", "kwargs")]


def alike(x, y):
    return type(x) is type(y) and (not isinstance(x, F.SurfaceKinetics) or len(x.surfaces) == len(y.surfaces))


def copy_args(x, y):
    """what the user would write: x.pressure = ..., x.surfaces = ..."""
    for k in args(x):
        if hasattr(y, k):
            setattr(x, k, getattr(y, k))


SHARE = ("mesh", "materials", "T", "traps", "boundary_conditions", "sources", "initial_conditions", "dt", "settings")


def execute(case, rec):
    old = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        one = Sim(case["c1"], case["a1"], d, 1)
        if case["ref"]:
            one.init()
            rec["got"] = one.go()
            return
        sims = {1: one}
        for op in case["ops"]:
            e = dict(op)
            rec["events"].append(e)
            if op["op"] == "new":
                if op["share"]:
                    two = Sim(one.c, one.a, d, 2)
                    for k in SHARE:
                        setattr(two.sim, k, getattr(one.sim, k))
                else:
                    two = Sim(case["c2"], case["a2"], d, 2)
                sims[2] = two
            elif op["op"] == "edit":
                k = sims[op["s"]]
                k.edit(op["part"], op["how"], op["c"], op["a"])
            elif op["op"] == "init":
                sims[op["s"]].init()
            elif op["op"] == "stop":
                sims[op["s"]].stop()
            else:
                e["got"] = sims[op["s"]].go()
        rec["end"] = "ok"
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
