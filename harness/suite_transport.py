"""Runs one generated configuration and records the state of every accepted step."""
import festim as F
from obs import Probe, q
import build

LIM = 1e8


def clip(v, unit=1e-6):
    x = q(v, unit)
    if x == 2000000001:
        return int(LIM)          # not a number
    return int(max(1 - LIM, min(LIM - 1, x)))


def snap(sim, rd, split, c, u=None):
    n = 1 + len(c["traps"])
    res = [split] if not isinstance(split, (list, tuple)) else split
    st = {"t": clip(sim.t), "u": [clip(v) for v in rd.nodal(res[0])],
          "T": [clip(v / build.T0) for v in rd.nodal(sim.T.T)],
          "tr": [[[clip(a), clip(b)] for a, b in rd.percell(res[k])] for k in range(1, n)],
          "n": [[clip(v) for v in rd.nodal(t.density[0])] if k["kind"] != "trap" else []
                for t, k in zip(sim.traps, c["traps"])],
          "cs": [clip(rd.scalar(r)) for r in res[n:]]}
    return st


def parts(fn):
    return [fn] if fn.function_space().num_sub_spaces() == 0 else list(fn.split())


def execute(case, rec):
    c, aux = case["cfg"], case["aux"]
    ev = rec["events"]
    try:
        sim = build.make(c, aux)
        box = {}

        def acc():
            h = sim.h_transport_problem
            st = snap(sim, box["rd"], parts(h.u), c)
            st["c"] = [[clip(a), clip(b)] for a, b in box["rd"].percell(sim.mobile.post_processing_solution)]
            # the fields handed to post-processing are those of the solution
            st["same"] = int(all(
                box["rd"].percell(t.post_processing_solution).tolist() == box["rd"].percell(p).tolist()
                for t, p in zip(sim.traps, parts(h.u)[1:])))
            # quantities of this step (the probe comes last)
            st["q"] = [[clip(q.data[-1] / sc), clip(q.data[-1] / sc, 1e-3)] if len(q.data) == len(ev) else [int(LIM), int(LIM)]
                       for q, sc in dqs]
            ev.append(st)
        dqs = build.make_dqs(c)
        sim.exports = [F.DerivedQuantities([q for q, _ in dqs] + [Probe(acc)])]
        sim.initialise()
        box["rd"] = build.Reader(sim)
        st = snap(sim, box["rd"], parts(sim.h_transport_problem.u_n), c)
        st["c"], st["same"], st["q"] = [], 1, []
        ev.append(st)
        sim.run()
        rec["end"] = "ok"
    except Exception as e:
        rec["end"] = type(e).__name__
        rec["err"] = str(e)[:600]
