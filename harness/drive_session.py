"""Sessions generated by SessionGen; every run compared with a fresh run of the
same configuration in another process."""
import copy, json
from check import select
import core

CFG = 'CONSTANT Families = {"traps", "chem", "source", "dirichlet", "temp", "extr", "surf", "flux", "coord"}\nCONSTANT WithDQ = TRUE\nSPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\n'


def key(c, a):
    return json.dumps([c, a], sort_keys=True)


def sig(case):
    return json.dumps([case["c1"], case["a1"], case["c2"], case["a2"], case["ops"]], sort_keys=True).replace(" ", "")


def versions(x):
    """annotate the edits with the resulting configuration; the ones a run uses"""
    cur = {1: (x["c1"], x["a1"])}
    used = []
    for o in x["ops"]:
        if o["op"] == "edit":
            c, a = copy.deepcopy(cur[o["s"]])
            p = o["part"]
            if p == "all":
                c, a = x["c2"], x["a2"]
            elif p == "time":
                c["final"], a["dt"], a["ratio"] = x["c2"]["final"], x["a2"]["dt"], x["a2"]["ratio"]
            elif p == "steady":
                c["steady"], c["final"] = True, 0
            elif p == "transient":
                c["steady"], c["final"] = False, 2000
            elif p in ("soret", "chem"):
                c[p] = not c[p]
            elif p == "el":
                c["el"] = "DG" if c["el"] == "CG" else "CG"
            elif p == "swap":
                c["traps"] = c["traps"][::-1]
            elif p == "drop":
                c["traps"] = c["traps"][1:]
            elif p == "txt":
                a["txt"] = x["a2"]["txt"]
            elif p == "exps":
                a["ex"] = x["a2"]["ex"]
            elif p == "mesh":
                h = c["h"][-1] // 2
                c["h"] = c["h"][:-1] + [h, h]
                c["cv"] = c["cv"] + c["cv"][-1:]
            elif p != "none":
                c[p] = x["c2"][p]
            o["before"] = cur[o["s"]][0]
            cur[o["s"]] = (c, a)
            o["c"], o["a"] = c, a
        elif o["op"] == "new":
            cur[2] = cur[1] if o["share"] else (x["c2"], x["a2"])
        elif o["op"] == "go":
            used.append(cur[o["s"]])
    return used


def context(part, b, a):
    """what else is there that an edit could have left behind"""
    flux = any(q["k"] == "flux" and q["f"] == 0 for q in b["dqs"])
    grad = b["temp"]["a"][1] != 0 or b["temp"]["kind"] in ("transient", "steady")
    if part == "soret":
        return [b["soret"], flux and grad]
    if part == "temp":
        return [b["temp"]["kind"], a["temp"]["kind"], b["chem"]]
    if part == "mats":
        return [b["temp"]["kind"], b["chem"], bool(b["traps"]), flux]
    if part in ("steady", "transient", "chem", "all"):
        return [b["temp"]["kind"], b["chem"], bool(b["traps"]), bool(b["srcs"])]
    if part in ("el", "traps", "swap", "drop"):
        return [[t["kind"] for t in b["traps"]], bool(b["ics"]), b["chem"]]
    if part == "mesh":
        return [b["temp"]["kind"], [t["kind"] for t in b["traps"]], any(q["kind"] == "sk" for q in b["bcs"])]
    return []


def feats(x):
    versions(x)
    d = dict(fam=x["fam"], shape="".join(o["op"][0] + str(o["s"]) for o in x["ops"]))
    for i, o in enumerate(x["ops"]):
        if o["op"] == "edit":
            d["edit_%s" % o["part"]] = o["how"]
            d["ctx_%s" % o["part"]] = json.dumps(context(o["part"], o["before"], o["c"]))
        if o["op"] == "new":
            d["new"] = o["share"]
    for k in ("c1", "c2"):
        c = x[k]
        d[k] = json.dumps([c["temp"]["kind"], c["steady"], c["chem"], c["soret"], c["el"], c["geo"]])
        d[k + "t"] = json.dumps([[t["kind"], t["n"][0][2] != 0, len(t["n"])] for t in c["traps"]])
        d[k + "b"] = json.dumps(sorted(b["kind"] for b in c["bcs"]))
        d[k + "s"] = json.dumps([[s["f"], s["a"][2] != 0] for s in c["srcs"]])
        d[k + "m"] = json.dumps([c["h"], c["cv"]])
    d["order"] = json.dumps([o["part"] for o in x["ops"] if o["op"] == "edit"])
    return d


def strata(x):
    return [any(o["op"] == "new" for o in x["ops"]), x["fam"]]


def run(ctx, n=None):
    ctx.model("SessionMC", "SessionMC.cfg")
    g = ctx.generate("SessionGen", "gen.cfg", 8000 if ctx.thorough else 2500, depth=60, files=[("gen.cfg", CFG)])
    cases = select(g, feats, n or (400 if ctx.thorough else 100), ctx.rng, strata)
    refs, need = {}, []
    for i, x in enumerate(cases):
        x.update(id=i, suite="session", ref=0, alarm=200)
        u = versions(x)
        need.append([key(*v) for v in u])
        for c, a in u:
            refs.setdefault(key(c, a), dict(id=10000 + len(refs), suite="session", ref=1, c1=c, a1=a, alarm=120))
    rk = list(refs)
    allc = [refs[k] for k in rk] + cases
    res = core.run_cases(ctx.scratch, allc, timeout=240)
    rr = {k: r for k, r in zip(rk, res)}
    traces, results = [], []
    for x, r, nd in zip(cases, res[len(rk):], need):
        rs = []
        for k in dict.fromkeys(nd):
            got = rr[k].get("got") or {"end": rr[k].get("end", "none"), "vecs": [], "quants": [], "files": []}
            rs.append(dict(got, cfg=refs[k]["c1"], aux=refs[k]["a1"]))
        ev = []
        for o in r["events"]:
            o = {k: v for k, v in o.items() if k not in ("c", "a", "before")}
            o.setdefault("got", {})
            ev.append(o)
        traces.append({"id": x["id"], "c1": x["c1"], "a1": x["a1"], "c2": x["c2"], "a2": x["a2"], "ops": ev, "refs": rs,
                       "end": r.get("end", "none")})
        results.append(r)
    bad = []
    for name, fn in TAMPERS:
        for t in traces:
            b = fn(copy.deepcopy(t))
            if b is not None:
                b["id"] = 1000000 + len(bad)
                bad.append((name, b))
                break
    verdicts, r = core.tlc_validate(ctx.scratch, "SessionTrace", "SessionTrace.cfg", traces + [b for _, b in bad])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ok = sum(x["got"]["end"] == "ok" for t in traces for x in t["ops"] if x["op"] == "go")
    tot = sum(1 for t in traces for x in t["ops"] if x["op"] == "go")
    ctx.notes.append("%d runs in %d sessions, %d completed, %d fresh reference runs" % (tot, len(traces), ok, len(rk)))
    if ok * 10 < tot * 8:
        raise core.MachineryError("too few runs of the sessions complete: %d of %d" % (ok, tot))
    return {"cases": cases, "results": results, "traces": traces, "verdicts": verdicts,
            "selftest_failed": [nm for nm, b in bad if not verdicts[b["id"]]["viol"]]}


def _last(t):
    for o in reversed(t["ops"]):
        if o["op"] == "go" and o["got"]["end"] == "ok":
            return o["got"]


def _tam(fn):
    def g(t):
        o = _last(t)
        if o is None:
            return None
        fn(o)
        return t
    return g


TAMPERS = [("field", _tam(lambda o: o["vecs"][-1].__setitem__(-1, o["vecs"][-1][-1] + 60))),
           ("extra step", _tam(lambda o: o["vecs"].append(o["vecs"][-1]))),
           ("quantity", _tam(lambda o: o["quants"][1].append(0))),
           ("file", _tam(lambda o: o["files"][-1].append(1000000))),
           ("error", _tam(lambda o: o.__setitem__("end", "TypeError")))]
