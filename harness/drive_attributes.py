"""Histories of AttributesGen played on FESTIM's objects, validated by AttributesTrace."""
import json
from check import drive

CFG = "CONSTANT Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["c"], case["ops"]], sort_keys=True).replace(" ", "")


def totrace(c, r):
    return {"c": c["c"], "ops": r["events"], "end": r["end"]}


def _tam(fn):
    def g(t):
        for e in t["ops"]:
            if e["res"] == "ok" and e["obj"]:
                fn(e)
                return t
    return g


TAMPERS = [("value", _tam(lambda e: e["obj"][0].__setitem__("a", e["obj"][0]["a"] + 1))),
           ("result", _tam(lambda e: e.__setitem__("res", "TypeError")))]


def run(ctx, n=None):
    ctx.model("AttributesMC", "AttributesMC.cfg")
    cases = ctx.generate("AttributesGen", "gen.cfg", n or (12000 if ctx.thorough else 800), depth=20, files=[("gen.cfg", CFG % 10)])
    return drive(ctx, "attributes", cases, totrace, "AttributesTrace", "AttributesTrace.cfg", TAMPERS)
