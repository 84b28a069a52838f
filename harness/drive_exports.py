"""Simulations with exports generated by ExportsGen, files checked against
ExportsTrace."""
import json
from check import select, drive
from drive_transport import excess_divergence, few

CFG = 'CONSTANT Families = {"traps", "chem", "source", "dirichlet", "many"}\nCONSTANT WithDQ = FALSE\nSPECIFICATION XSpec\nCHECK_DEADLOCK FALSE\n'


def sig(case):
    return json.dumps([case["cfg"], case["aux"], case["exps"]], sort_keys=True).replace(" ", "")


def feats(x):
    c, a = x["cfg"], x["aux"]
    d = dict(fam=x["fam"], mesh=json.dumps([c["h"], c["cv"], len(c["mats"])]), steady=c["steady"], chem=c["chem"], el=c["el"],
             dt="%d/%d" % (a["dt"], a["ratio"]), ntr="%d/%d" % (len(c["traps"]), c["ids"]), order=a["order"], tsc=a["tsc"])
    for e in x["exps"]:
        k = "dens" if e["trap"] else e["kind"]
        d[k + "_z"] = json.dumps([a["tsc"], e["every"], e["wr"], e["all"], e["late"]])
        d[k + "_s"] = json.dumps([e["every"], e["wr"], e["all"], e["times"], e["late"], e["named"]])
        d[k + "_f"] = json.dumps([e["f"], e["fs"], e["filt"] if k == "txt" else e["ck"]])
        d[k + "_w"] = json.dumps([e["where"], e["label"], e["hf"] if k == "txt" else ""])
        if k != "dq":
            d["%s_n%d" % (k, e["f"])] = json.dumps([len(c["traps"]), sorted(q["f"] for q in c["ics"])])
        if k == "dens":
            d["dens_t"] = json.dumps([c["traps"][e["trap"] - 1]["mats"], len(c["traps"][e["trap"] - 1]["n"])])
        if k == "dq":
            d["dq_q"] = json.dumps(e["qs"])
    d["n"] = json.dumps(sorted("dens" if e["trap"] else e["kind"] for e in x["exps"]))
    return d


def strata(x):
    return [x["fam"], x["cfg"]["steady"]]


def totrace(c, r):
    nm = len(c["cfg"]["mats"])
    end = r["end"]
    if end == "ValueError" and "diverged" in r["err"] or "stepsize reached minimal" in r.get("err", ""):
        end = "diverged"
    return {"cfg": c["cfg"], "exps": c["exps"], "states": r["events"], "out": r.get("out", []), "end": end,
            "uniform": [len(t["n"]) == 1 and len(t["mats"]) == nm for t in c["cfg"]["traps"]]}


def _t(kind, fn):
    def g(t):
        if t["end"] != "ok":
            return None
        for z, e in enumerate(t["exps"]):
            if e["kind"] == kind and t["out"][z]["cols"]:
                fn(t, z)
                return t
    return g


def _val(t, z):
    o = t["out"][z]["cols"][-1]
    o[-1] = o[-1] + 50000 if isinstance(o[-1], int) else [v + 50000 for v in o[-1]]


TAMPERS = [("txt value", _t("txt", _val)), ("csv value", _t("dq", _val)),
           ("xdmf value", _t("xdmf", _val)),
           ("missing entry", _t("xdmf", lambda t, z: t["out"][z]["t"].pop())),
           ("file written too early", _t("dq", lambda t, z: t["states"][0]["obs"][z].append(1)))]


def run(ctx, n=None):
    ctx.model("ExportsMC", "ExportsMC.cfg")
    g = ctx.generate("ExportsGen", "gen.cfg", 8000 if ctx.thorough else 2500, depth=25, files=[("gen.cfg", CFG)])
    g = few(g, "many", 8 if ctx.thorough else 2, ctx.rng)
    cases = select(g, feats, n or (700 if ctx.thorough else 130), ctx.rng, strata)
    r = drive(ctx, "exports", cases, totrace, "ExportsTrace", "ExportsTrace.cfg", TAMPERS)
    return excess_divergence(r)
