"""Tables of derived quantities generated by TableGen, made by FESTIM, validated by TableTrace."""
import json
from check import select, drive

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["m"], case["qs"], case["ks"]], sort_keys=True).replace(" ", "")


def feats(x):
    m = x["m"]
    g = "%s%d" % (m["geo"], m["dim"])
    d = dict(g=g, units=m["units"], file=m["file"], fs=m["fs"], n=len(x["qs"]))
    for q in x["qs"]:
        d["%s_%s" % (q["cls"], q["f"])] = g
    for k in x["ks"]:
        d["k_%d%d%d%d" % (len(k["surfaces"]), len(k["volumes"]), len(k["fields"]), len(k["inst"]))] = k["scalar"]
        for c in k["inst"]:
            d["inst_" + c] = 1
    return d


def totrace(c, r):
    t = {"m": c["m"], "qs": c["qs"], "ks": c["ks"], "end": r["end"]}
    for k in ("warned", "header", "columns", "csv", "widths", "found"):
        t[k] = r.get(k, [])
    return t


def _tam(fn):
    def g(t):
        if t["end"] == "ok" and t["m"]["file"] and t["m"]["units"]:
            fn(t)
            return t
    return g


TAMPERS = [("title", _tam(lambda t: t["header"].__setitem__(1, t["header"][1] + "x"))), ("file", _tam(lambda t: t["csv"].append("x"))),
           ("column", _tam(lambda t: t["columns"].__setitem__(0, False))), ("width", _tam(lambda t: t["widths"].__setitem__(0, 99))),
           ("filter", _tam(lambda t: t["found"][0]["idx"].append(1))), ("warning", _tam(lambda t: t.__setitem__("warned", t["warned"] and [] or [t["qs"][0]["cls"]])))]


def run(ctx, n=None):
    ctx.model("TableMC", "TableMC.cfg")
    g = ctx.generate("TableGen", "gen.cfg", 4000 if ctx.thorough else 1200, depth=30, files=[("gen.cfg", CFG)])
    cases = select(g, feats, n or (800 if ctx.thorough else 160), ctx.rng, lambda x: [x["m"]["geo"], x["m"]["dim"]])
    return drive(ctx, "table", cases, totrace, "TableTrace", "TableTrace.cfg", TAMPERS)
