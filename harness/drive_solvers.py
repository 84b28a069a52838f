"""Histories of SolversGen played on a simulation, validated by SolversTrace."""
import json
from check import select, drive

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["c"], case["ops"]], sort_keys=True).replace(" ", "")


def feats(x):
    c = x["c"]
    d = dict(heat=c["heat"], n=c["ntrap"], tr=c["transient"])
    for p, q in c["par"].items():
        d["par_" + p] = json.dumps([q["lin"], q["pre"], q["its"]])
    last = "start"
    for o in x["ops"]:
        d["%s_%s_%s" % (o["op"], o["p"] if o["op"] not in ("init", "run") else "", last)] = o["how"]
        last = o["op"]
    return d


def totrace(c, r):
    return {"c": c["c"], "ops": r["events"], "end": r["end"]}


def _tam(fn):
    def g(t):
        for e in t["ops"]:
            if e["op"] == "run" and e["res"] == "ok":
                fn(e["solves"][0])
                return t
    return g


TAMPERS = [("other solver", _tam(lambda s: s.__setitem__("own", s["own"] + 77))), ("its", _tam(lambda s: s["par"].__setitem__("its", 7))),
           ("linear solver", _tam(lambda s: s["par"].__setitem__("lin", "petsc"))), ("tolerance", _tam(lambda s: s["par"].__setitem__("abs", 9))),
           ("problem", _tam(lambda s: s.__setitem__("p", "other")))]


def run(ctx, n=None):
    ctx.model("SolversMC", "SolversMC.cfg")
    g = ctx.generate("SolversGen", "gen.cfg", 3000 if ctx.thorough else 800, depth=40, files=[("gen.cfg", CFG)])
    cases = select(g, feats, n or (600 if ctx.thorough else 120), ctx.rng, lambda x: [x["c"]["heat"], x["c"]["transient"]])
    return drive(ctx, "solvers", cases, totrace, "SolversTrace", "SolversTrace.cfg", TAMPERS)
