"""Configurations with and without mistakes from RulesGen; RulesTrace decides."""
import copy, json
import core

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps(case["c"], sort_keys=True).replace(" ", "")


def run(ctx, n=None):
    n = n or (9000 if ctx.thorough else 1500)
    items = ctx.generate("RulesGen", "gen.cfg", n * 2, depth=6, files=[("gen.cfg", CFG)])
    seen, u = set(), []
    for x in items:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            u.append(x)
    u = u[:n]
    B = 10
    batches = [dict(id=i, suite="rules", items=u[i:i + B], alarm=170) for i in range(0, len(u), B)]
    res = core.run_cases(ctx.scratch, batches, timeout=240)
    traces, results = [], []
    for b, r in zip(batches, res):
        ev = r.get("events") or []
        for k, x in enumerate(b["items"]):
            e = ev[k] if k < len(ev) else {"end": r.get("end", "none"), "solves": 0}
            traces.append(dict(e, id=len(traces), c=x["c"]))
            results.append(dict(e, events=[]))
    bad = []
    for name, fn in TAMPERS:
        for t in traces:
            z = fn(copy.deepcopy(t))
            if z:
                z["id"] = 1000000 + len(bad)
                bad.append((name, z))
                break
    v, r = core.tlc_validate(ctx.scratch, "RulesTrace", "RulesTrace.cfg", traces + [z for _, z in bad])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.notes.append("%d configurations, %d sound" % (len(traces), sum(not v[t["id"]]["errs"] for t in traces)))
    return {"cases": u, "results": results, "traces": traces, "verdicts": v,
            "selftest_failed": [nm for nm, z in bad if not v[z["id"]]["viol"]]}


def _set(ok, **kw):
    def g(t):
        if (t["end"] == "ok") != ok:
            return None
        t.update(kw)
        return t
    return g


TAMPERS = [("accepted", _set(False, end="ok")), ("refused", _set(True, end="ValueError")),
           ("kind", _set(False, end="KeyError")), ("computed", _set(False, solves=2))]
