"""Configurations generated by PlaneGen (2D and 3D) replayed into Simulation,
traces validated by PlaneTrace."""
import json
from check import select, drive
import drive_transport as dt

CFG = "CONSTANT Families = {%s}\nCONSTANT WithDQ = %s\nCONSTANT Dims = {%s}\nSPECIFICATION PSpec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["cfg"], case["aux"], case["pl"]], sort_keys=True).replace(" ", "")


def feats(x):
    c = dict(x["cfg"], x0=0, h=[])
    d = dt.feats(dict(x, cfg=c))
    p = x["pl"]
    d.pop("mesh")
    d.update(dim=c["dim"], marks=json.dumps(p["marks"]), skew=p["skew"], file=p["file"], hy=len(p["hy"]))
    return d


def strata(x):
    c = x["cfg"]
    return [x["fam"], c["dim"], c["steady"]]


FAMS = {"C08": ["mix"], "C09": ["traps"], "C10": ["dirichlet"], "C11": ["flux"], "C12": ["source"], "C13": ["temp"],
        "C14": ["chem"], "C15": ["coord"], "C16": ["mix", "coord", "chem", "temp"],
        "C21": ["mix", "traps", "dirichlet", "flux", "source", "temp", "chem", "coord"]}
QUICK = {"C16": 40, "C21": 90}


def run(ctx, fams=None, n=None):
    fams = fams or FAMS[ctx.prop]
    dims = "2, 3" if ctx.thorough else "2"
    if ctx.prop == "C21":
        dims = "2, 2, 3"
    cfg = CFG % (", ".join('"%s"' % x for x in fams), "TRUE" if ctx.prop in ("C16", "C21") else "FALSE", dims)
    g = ctx.generate("PlaneGen", "gen.cfg", 4000 if ctx.thorough else 1000, depth=20, files=[("gen.cfg", cfg)])
    seen, u = set(), []
    for x in g:
        k = sig(x)
        if k not in seen and (x["cfg"]["dim"] == 2 or len(x["cfg"]["cells"]) <= 24):
            seen.add(k)
            u.append(x)
    n = n or (300 if ctx.thorough else QUICK.get(ctx.prop, 24))
    cases = select(u, feats, n, ctx.rng, strata)
    return dt.excess_divergence(
        drive(ctx, "plane", cases, dt.totrace, "PlaneTrace", "PlaneTrace.cfg", dt.TAMPERS))
