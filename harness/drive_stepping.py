"""C01-C04: generated controller behaviours replayed into Simulation.run()."""
import json
from check import select, drive


def sig(case):
    return json.dumps([case["cfg"], case["aux"], case["script"]], sort_keys=True).replace(" ", "")


def feats(x):
    c, a, s = x["cfg"], x["aux"], x["script"]
    n = len(s)
    return dict(final=c["final"], init=c["init"], ratio="%d/%d" % (c["num"], c["den"]),
                dtmin=c["dtmin"], cap=json.dumps(c["cap"]), capkind=a["capkind"],
                miles=json.dumps([m for m in c["miles"] if m not in a["txt"]]),
                txt=json.dumps(a["txt"]), scale=a["scale"], kind=a["kind"],
                fails=min(3, sum(1 for y in s if not y[1])),
                slow=min(2, sum(1 for y in s if y[1] and y[0] >= 5)),
                edge=min(2, sum(1 for y in s if y[1] and y[0] in (4, 5))),
                n=0 if n < 3 else 1 if n < 10 else 2,
                brk=json.dumps([c["cap"], any(k[0] in c["miles"] for k in c["cap"]), a["scale"] == 1]),
                mn=json.dumps([a["scale"] == 1, c["dtmin"], c["num"], sum(1 for y in s if not y[1])]),
                endfail=int(bool(s) and not s[-1][1]),
                consec=max([0] + [1 for p, q in zip(s, s[1:]) if not p[1] and not q[1]]))


def totrace(c, r):
    ev = r["events"]
    if not ev or ev[-1]["e"] != "end":
        ev = ev + [{"e": "end", "s": r["end"], "t": 0}]
    return {"cfg": c["cfg"], "exact": int(c["aux"]["scale"] == 1 and c["cfg"]["den"] == 1),
            "events": ev}


def _tamper(kind, field, delta):
    def fn(t):
        hits = [e for e in t["events"] if e["e"] == kind]
        if len(hits) < 2:
            return None
        hits[1][field] += delta
        return t
    return fn


def _drop(t):
    acc = [i for i, e in enumerate(t["events"]) if e["e"] == "acc"]
    if len(acc) < 3:
        return None
    del t["events"][acc[1]]
    return t


TAMPERS = [("dt of an attempt", _tamper("try", "dt", 5000)),
           ("time of an accepted step", _tamper("acc", "t", -3000)),
           ("integrated concentration", _tamper("acc", "c", 3000)),
           ("temperature", _tamper("acc", "T", 3000)),
           ("dropped acceptance", _drop)]


def run(ctx):
    ctx.model("SteppingMC", "SteppingMC_full.cfg" if ctx.thorough else "SteppingMC.cfg")
    g = ctx.generate("SteppingGen", "SteppingGen.cfg", 6000 if ctx.thorough else 900)
    seen, u = set(), []
    for x in g:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            u.append(x)
    cases = select(u, feats, 4000 if ctx.thorough else 420, ctx.rng)
    for i, c in enumerate(cases):
        c["grp"] = "%s%d" % (c["aux"]["kind"], c["aux"]["scale"])
        c["aux"]["shuffle"] = i % 2
    return drive(ctx, "stepping", cases, totrace, "SteppingTrace", "SteppingTrace.cfg",
                 TAMPERS, alarm=60)
