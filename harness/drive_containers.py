"""Histories of ContainersGen played on FESTIM's typed lists, validated by ContainersTrace."""
import json
from check import select, drive

CFG = "CONSTANT Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["kind"], case["ops"]], sort_keys=True).replace(" ", "")


def feats(x):
    d = {"kind": x["kind"]}
    for o in x["ops"]:
        d["%s_%s_%s" % (o["op"], o["as"], "bad" if any(v < 0 for v in o["xs"]) else "ok")] = x["kind"]
    return d


def totrace(c, r):
    return {"ops": r["events"], "end": r["end"]}


def _tam(fn):
    def g(t):
        for e in t["ops"]:
            if e["res"] == "ok" and e["op"] in ("append", "extend"):
                fn(e)
                return t
    return g


TAMPERS = [("item", _tam(lambda e: e["s"].append(-1))), ("lost", _tam(lambda e: e["s"].clear() if e["s"] else None)),
           ("result", _tam(lambda e: e.__setitem__("res", "TypeError")))]


def run(ctx, n=None):
    ctx.model("ContainersMC", "ContainersMC.cfg")
    g = ctx.generate("ContainersGen", "gen.cfg", 4000 if ctx.thorough else 800, depth=40, files=[("gen.cfg", CFG % 12)])
    cases = select(g, feats, n or (3000 if ctx.thorough else 400), ctx.rng, lambda x: [x["kind"]])
    return drive(ctx, "containers", cases, totrace, "ContainersTrace", "ContainersTrace.cfg", TAMPERS)
