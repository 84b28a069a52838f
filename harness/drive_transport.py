"""Configurations generated by TransportGen replayed into Simulation, traces
validated by TransportTrace."""
import json, os
from check import select, drive
import core

CFG = "CONSTANT Families = {%s}\nCONSTANT WithDQ = %s\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"


def sig(case):
    return json.dumps([case["cfg"], case["aux"]], sort_keys=True).replace(" ", "")


def feats(x):
    c, a = x["cfg"], x["aux"]
    d = dict(fam=x["fam"], mesh=json.dumps([c["x0"], c["h"], c["cv"]]), geo=c["geo"], temp=c["temp"]["kind"],
             ta=json.dumps(c["temp"]["a"]), steady=c["steady"], chem=c["chem"], soret=c["soret"], el=c["el"],
             dt="%d/%d" % (a["dt"], a["ratio"]), fs=a["fs"], jac=a["jac"], ref=a["ref"], order=a["order"], vols=a["vols"])
    for i, t in enumerate(c["traps"]):
        d["tr%d" % i] = json.dumps([t["kind"], t["mats"], len(t["k"]), t["n"] if t["kind"] == "trap" else t["d"]])
        d["trk%d" % i] = json.dumps([t["k"], t["jk"]])
    for b in c["bcs"]:
        k = "%s%d" % (b["kind"], b["f"])
        d["bc_" + k] = json.dumps(b["surf"])
        d["bca_" + k] = json.dumps(b["a"])
        d["bck_" + k] = json.dumps([b["k"], b["j"], b["kt"], b["jt"]])
        if b["kind"] == "recomb":
            d["ord"] = b["order"]
        if b["kind"] == "imp":
            d["imp"] = json.dumps([b["rp"], b["kr"], b["kd"]])
        if b["kind"] == "sk":
            d["sk"] = json.dumps([b["lam"], b["ini"], b["fn"]])
            d["sk2"] = json.dumps([b["ksb"], b["kbs"], b["nsurf"], b["nis"]])
    for s in c["srcs"]:
        d["src%s%d" % (s["kind"], s["f"])] = json.dumps([len(s["vols"]), s["a"]])
        if s["kind"] == "gauss":
            d["gauss"] = json.dumps([s["mu"], s["w"]])
        d["how%s" % min(s["f"], 1)] = json.dumps([x["aux"]["how"], s["a"][2] != 0])
    for i in c["ics"]:
        d["ic%d" % i["f"]] = json.dumps(i["a"])
    if c["traps"]:
        d["howt"] = json.dumps([x["aux"]["how"], [t["kind"] for t in c["traps"]]])
    if c["traps"]:
        d["ids"] = json.dumps([c["ids"], len(c["traps"]), sorted(i["f"] for i in c["ics"]), sorted(q["f"] for q in c["srcs"]), sorted(b["f"] for b in c["bcs"])])
    d["none"] = json.dumps([not c["ics"], not c["srcs"], not c["bcs"], c["chem"], bool(c["traps"])])
    if c["soret"]:
        d["Q"] = json.dumps([c["geo"], c["temp"]["kind"], c["mats"][0]["Q"][1] != 0])
        d["tx"] = json.dumps([c["geo"], c["temp"]["a"]])
    d["nsrc"] = json.dumps(sorted([s["f"], s["kind"], s["a"][2] != 0] for s in c["srcs"]))
    d["nheat"] = json.dumps([c["temp"]["kind"], sum(b["f"] == 100 for b in c["bcs"]), c["chem"]])
    for q in c["dqs"]:
        d["q%s" % q["k"]] = json.dumps([q["f"], q["fs"]])
        d["qg%s%s" % (q["k"], min(q["f"], 1))] = json.dumps([c["geo"], c["chem"], q["half"], c["soret"], q["id"]])
    if c["chem"]:
        d["law"] = json.dumps([[m["law"], m["S"], m["jS"]] for m in c["mats"]])
    if c["temp"]["kind"] in ("transient", "steady"):
        d["th"] = json.dumps([m["k"] for m in c["mats"]] + [c["mats"][0]["cp"]])
    return d


def strata(x):
    c = x["cfg"]
    if c["dqs"]:
        return [x["fam"], c["steady"]]
    # what is absent matters too: nothing drives the temperature, no initial condition, no source
    heat = sum(b["f"] == 100 for b in c["bcs"]) + sum(q["f"] == 100 for q in c["srcs"])
    return [c["temp"]["kind"], c["steady"], bool(c["traps"]), c["temp"]["kind"] == "transient" and not heat]


def totrace(c, r):
    st, end = r["events"], r["end"]
    if end == "ValueError" and "diverged" in r["err"] or "stepsize reached minimal" in r.get("err", ""):
        end = "diverged"
        if c["cfg"]["steady"]:
            st = st[:1]          # a steady state that was rejected
    return {"cfg": c["cfg"], "states": st, "end": end or "none"}


def excess_divergence(r):
    """The generated problems are benign: a few may be too hard for Newton, not many."""
    soft = lambda x: x["c"] == "out_of_range"
    d = []
    for t in r["traces"]:
        v = r["verdicts"][t["id"]]
        if t["end"] == "diverged" or any(map(soft, v["viol"])):
            d.append(t)
            v["viol"] = [x for x in v["viol"] if not soft(x)]
    if len(d) > max(3, len(r["traces"]) // 10):
        for t in d:
            r["verdicts"][t["id"]]["viol"].append({"c": "not_judged_too_often", "at": 0})
    return r


def _t(path, delta):
    def fn(t):
        if len(t["states"]) < 3 or t["end"] != "ok":
            return None
        o = t["states"][2]
        try:
            for p in path[:-1]:
                o = o[p]
            o[path[-1]] += delta
        except (IndexError, KeyError):
            return None
        return t
    return fn


TAMPERS = [("mobile value", _t(["u", 1], 40000)), ("temperature", _t(["T", 1], 40000)),
           ("trapped value", _t(["tr", 0, 0, 1], 60000)), ("post-processed value", _t(["c", 0, 0], 100000)),
           ("derived quantity", _t(["q", 1, 0], 100000))]

FAMS = {"C08": ["mix"], "C09": ["traps"], "C10": ["dirichlet"], "C11": ["flux"], "C12": ["source"], "C13": ["temp"],
        "C14": ["chem"], "C15": ["coord"], "C19": ["extr"], "C20": ["surf"],
        "C16": ["mix", "coord", "chem", "surf", "temp", "traps", "many"]}


QUICK = {"C16": 140, "chem": 120, "mix": 110, "coord": 140}


def few(items, fam, n, rng):
    """at most n of a costly family"""
    mine = [x for x in items if x["fam"] == fam]
    rng.shuffle(mine)
    return [x for x in items if x["fam"] != fam] + mine[:n]


def run(ctx, fams=None, n=None):
    fams = fams or FAMS[ctx.prop]
    cfg = CFG % (", ".join('"%s"' % x for x in fams), "TRUE" if ctx.prop == "C16" else "FALSE")
    g = ctx.generate("TransportGen", "gen.cfg", 10000 if ctx.thorough else 2500, depth=20, files=[("gen.cfg", cfg)])
    seen, u = set(), []
    for x in g:
        k = sig(x)
        if k not in seen:
            seen.add(k)
            u.append(x)
    n = n or (900 if ctx.thorough else QUICK.get(ctx.prop if ctx.prop in QUICK else fams[0], 150))
    u = few(u, "many", 8 if ctx.thorough else 1, ctx.rng)
    cases = select(u, feats, n, ctx.rng, strata)
    return excess_divergence(
        drive(ctx, "transport", cases, totrace, "TransportTrace", "TransportTrace.cfg", TAMPERS))
