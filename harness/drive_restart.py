"""Checkpoint / restart behaviours of RestartGen replayed, traces validated by RestartTrace."""
import json
from check import select, drive
import drive_transport as dt

FAMS = ["traps", "chem", "temp", "dirichlet", "flux", "source", "coord", "mix"]
CFG = "CONSTANT Families = {%s}\nCONSTANT WithDQ = FALSE\nSPECIFICATION RSpec\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % f for f in FAMS)


def sig(case):
    return json.dumps([case["cfg"], case["aux"], case["plan"]], sort_keys=True).replace(" ", "")


def feats(x):
    d = dt.feats(x)
    p = x["plan"]
    d.update(k=p["k"], mode=p["mode"], neg=p["idx"] < 0, label=p["label"], runs=p["runs"], tfile=p["tfile"], abs=p["abs"])
    return d


def strata(x):
    c = x["cfg"]
    return [x["fam"], c["temp"]["kind"], bool(c["traps"]), c["chem"]]


def totrace(c, r):
    ev, end = r["events"], r["end"]
    if end == "ValueError" and "diverged" in r["err"] or "stepsize reached minimal" in r.get("err", ""):
        end = "diverged"
    runs = (ev + [[], [], []])[:3]
    return {"plan": c["plan"], "A": runs[0], "B": runs[1], "D": runs[2], "end": end or "none",
            "times": r.get("times", []), "labels": r.get("labels", 1), "cfg": c["cfg"]}


def _b(path, delta):
    def fn(t):
        if t["end"] != "ok" or len(t["B"]) < 2:
            return None
        o = t["B"]
        try:
            for p in path[:-1]:
                o = o[p]
            o[path[-1]] += delta
        except (IndexError, KeyError):
            return None
        return t
    return fn


TAMPERS = [("restart mobile", _b([0, "u", 1], 20000)), ("restart temperature", _b([0, "T", 1], 20000)),
           ("restart trap", _b([0, "tr", 0, 0, 1], 20000)), ("restart time", _b([1, "t"], 20000)),
           ("later mobile", _b([1, "u", 0], 20000))]


def run(ctx, fams=None, n=None):
    ctx.model("RestartMC", "RestartMC.cfg")
    g = ctx.generate("RestartGen", "gen.cfg", 8000 if ctx.thorough else 2000, depth=20, files=[("gen.cfg", CFG)])
    seen, u = set(), []
    for x in g:
        k = sig(x)
        if k not in seen:
            seen.add(k)
            u.append(x)
    n = n or (500 if ctx.thorough else 90)
    cases = select(u, feats, n, ctx.rng, strata)
    r = drive(ctx, "restart", cases, totrace, "RestartTrace", "RestartTrace.cfg", TAMPERS)
    return dt.excess_divergence(r)
