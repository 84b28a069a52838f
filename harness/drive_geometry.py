"""1D layouts generated by GeometryGen, markers validated by GeometryTrace."""
import copy, json
import core

CFG = "CONSTANT N = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps(case["g"], sort_keys=True).replace(" ", "")


def run(ctx, n=None):
    ctx.model("GeometryMC", "GeometryMC.cfg")
    items = []
    for N, k in ((3, 400), (5, 900), (8, 500)):
        items += ctx.generate("GeometryGen", "gen.cfg", (k * 6 if ctx.thorough else k), depth=4, files=[("gen.cfg", CFG % N)])
    seen, u = set(), []
    for x in items:
        if sig(x) not in seen:
            seen.add(sig(x))
            u.append(x)
    u = u[:n] if n else u
    B = 25
    batches = [dict(id=i, suite="geometry", items=u[i:i + B], alarm=100) for i in range(0, len(u), B)]
    res = core.run_cases(ctx.scratch, batches, timeout=150)
    traces, results = [], []
    for b, r in zip(batches, res):
        ev = r.get("events") or []
        for k, x in enumerate(b["items"]):
            e = ev[k] if k < len(ev) else {"cells": [], "facets": [], "lens": [], "ends": [0, 0], "end": r.get("end", "none")}
            traces.append(dict(e, id=len(traces), g=x["g"]))
            results.append(dict(e, events=[]))
    bad = []
    for name, fn in TAMPERS:
        for t in traces:
            z = fn(copy.deepcopy(t))
            if z:
                z["id"] = 1000000 + len(bad)
                bad.append((name, z))
                break
    v, r = core.tlc_validate(ctx.scratch, "GeometryTrace", "GeometryTrace.cfg", traces + [z for _, z in bad])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.notes.append("%d layouts, %d accepted" % (len(traces), sum(t["end"] == "ok" for t in traces)))
    return {"cases": u, "results": results, "traces": traces, "verdicts": v,
            "selftest_failed": [nm for nm, z in bad if not v[z["id"]]["viol"]]}


def _ok(fn):
    def g(t):
        if t["end"] != "ok" or len(t["cells"]) < 2:
            return None
        fn(t)
        return t
    return g


def _refused(t):
    if t["end"] == "ok":
        return None
    t["end"] = "ok"
    return t


TAMPERS = [("cell marker", _ok(lambda t: t["cells"][0].__setitem__(2, 99))),
           ("facet marker", _ok(lambda t: t["facets"][0].__setitem__(1, 7))),
           ("length", _ok(lambda t: t["lens"][0].__setitem__(1, 7))), ("refusal", _refused)]
