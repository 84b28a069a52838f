"""check.py <property> : decide one property (see DESIGN.md)."""
import copy, importlib, json, os, random, sys, time
import core

VERIF = core.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + 17)
        self.scratch = core.Scratch(prop)
        self.thorough = tier == "thorough"
        self.states = self.transitions = 0
        self.notes = []

    def model(self, module, cfg, **kw):
        r = core.tlc_model(self.scratch, module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.append("%s/%s: %d distinct states" % (module, cfg, r.distinct))
        return r

    def generate(self, module, cfg, num, depth=400, seed=None, files=()):
        r = core.tlc(self.scratch, module, cfg, workers=1, timeout=300, files=files, extra=[
            "-simulate", "num=%d" % num, "-depth", str(depth),
            "-seed", str(self.seed if seed is None else seed), "-deadlock"])
        g = core.printed(r, "GEN")
        if not g:
            raise core.MachineryError("no behaviours generated by %s:\n%s" % (module, r.out[-2000:]))
        self.transitions += r.generated
        return g

    def enumerate(self, module, cfg):
        """Every behaviour an exhaustive TLC run prints."""
        r = core.tlc(self.scratch, module, cfg, timeout=300, extra=["-deadlock"])
        g = core.printed(r, "GEN")
        if not g or not r.ok:
            raise core.MachineryError("enumeration %s failed:\n%s" % (module, r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.generated
        return sorted(g, key=lambda x: json.dumps(x, sort_keys=True))


def select(items, feats, n, rng, strata=None):
    """n items by greedy pairwise cover: each next one covers most feature pairs
    not covered yet.  With `strata`, the strata take turns, so that cases with
    many features do not crowd out the plain ones."""
    items = list(items)
    rng.shuffle(items)
    fs, groups = [], {}
    for i, it in enumerate(items):
        f = sorted("%s=%s" % kv for kv in feats(it).items())
        fs.append({(a, b) for j, a in enumerate(f) for b in f[j:]})
        groups.setdefault(json.dumps(strata(it)) if strata else "", []).append(i)
    chosen, covered = [], set()
    order = sorted(groups)
    while len(chosen) < n and any(groups.values()):
        for g in order:
            left = groups[g]
            if not left or len(chosen) >= n:
                continue
            best = max(left, key=lambda i: len(fs[i] - covered))
            covered |= fs[best]
            chosen.append(best)
            left.remove(best)
    return [items[i] for i in chosen]


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                head, _, what = line[len("KNOWN-FINDING:"):].partition(" :: ")
                kv = dict(p.split("=", 1) for p in head.split() if "=" in p)
                if kv.get("property") == prop:
                    out.append((kv.get("clause"), kv.get("sig"), what))
    return out


def run(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import registry
    entry = registry.CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    viols, known, traces_n, events_n = [], [], 0, 0
    samples, distinct = [], set()
    findings = load_findings(prop)
    err = None
    for suite_name in entry["suites"]:
        mod = importlib.import_module("drive_" + suite_name)
        try:
            r = mod.run(ctx)
        except core.MachineryError as e:
            err = e
            continue
        # r: cases, results, traces, verdicts
        for case, trace in zip(r["cases"], r["traces"]):
            v = r["verdicts"][trace["id"]]
            traces_n += 1
            events_n += int(v.get("n", 0))
            distinct.add(mod.sig(case))
            for x in v["viol"]:
                # "Cxx.clause" belongs to property Cxx, a bare clause to the property
                # whose cases these are
                owner, _, clause = x["c"].rpartition(".")
                if (owner and owner != prop and owner not in entry.get("also", ())) or clause not in entry.get("only", {clause}):
                    continue
                k = [f for f in findings if f[0] == clause and f[1] == mod.sig(case)]
                if k:
                    known.append((clause, mod.sig(case), k[0][2]))
                else:
                    viols.append((clause, x.get("at"), suite_name, case, trace, v))
        if r["cases"]:
            samples.append({"suite": suite_name, "case": r["cases"][0],
                            "trace_head": str(r["traces"][0])[:600]})
        if r.get("selftest_failed"):
            err = core.MachineryError("binding self-test failed in %s: %s"
                                      % (suite_name, r["selftest_failed"]))
    wall = time.time() - t0
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": traces_n,
                       "evaluations": events_n, "distinct_nontrivial": len(distinct),
                       "rule": entry["rule"], "samples": samples or ["none"],
                       "explanation": "; ".join(ctx.notes)},
          "assumptions": entry.get("assumptions", []),
          "wall_s": round(wall, 1), "violations": len(viols)}
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for clause, sg, what in known:
        if (clause, sg) not in seen:
            seen.add((clause, sg))
            print("KNOWN-FINDING: property=%s clause=%s %s" % (prop, clause, what))
    if viols:
        rd = os.path.join(evd, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for clause, at, suite, case, trace, v in viols:
            if clause in done:
                continue
            done.add(clause)
            path = os.path.join(rd, "%s-%s.json" % (prop, clause.replace("/", "_")))
            with open(path, "w") as f:
                json.dump({"property": prop, "clause": clause, "at": at, "suite": suite,
                           "case": case, "trace": trace, "verdict": v}, f, indent=1)
            print("  clause %s fails in %d trace(s), e.g. %s" % (
                clause, len({json.dumps(x[3], sort_keys=True) for x in viols if x[0] == clause}),
                json.dumps(case)[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err is not None:
        print("ERROR: %s" % err)
        return 2
    print("OK property=%s tier=%s: %d model states, %d traces (%d events) validated, %.0f s"
          % (prop, tier, ctx.states, traces_n, events_n, wall))
    return 0


def drive(ctx, suite, cases, totrace, module, cfg, tampers=(), timeout=150, alarm=120, done=None):
    """Common flow: run the cases, build the traces, validate, self-test."""
    for i, c in enumerate(cases):
        c["id"] = i
        c["suite"] = suite
        c.setdefault("alarm", alarm)
    results = core.run_cases(ctx.scratch, cases, timeout=timeout)
    traces = []
    for c, r in zip(cases, results):
        t = totrace(c, r)
        t["id"] = c["id"]
        traces.append(t)
    bad = []
    for name, fn in tampers:
        n = 0
        for t in traces:
            b = fn(copy.deepcopy(t))
            if b is not None:
                b["id"] = 1000000 + len(bad)
                bad.append((name, b))
                n += 1
                if n == 4:      # the tampered entry may be one that is not judged
                    break
    verdicts, r = core.tlc_validate(ctx.scratch, module, cfg, traces + [b for _, b in bad])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    failed = sorted({n for n, _ in bad} - {n for n, b in bad if verdicts[b["id"]]["viol"]})
    return {"cases": cases, "results": results, "traces": traces, "verdicts": verdicts,
            "selftest_failed": failed}


if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
