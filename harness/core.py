"""Shared machinery: scratch space, JIT acceleration, worker pool, TLC, verdicts.

Nothing here knows what FESTIM should do; that is in spec/*.tla.  This file runs
TLC, runs the real code (worker.py, one process per core) and moves NDJSON
between the two.
"""
import atexit, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
REPO = "/repo"
BASE_CACHE = "/opt/vp-cache/dijitso"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- scratch space
class Scratch:
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % tag)
        atexit.register(self.close)
        self.cache = os.path.join(self.dir, "dijitso")
        self.bin = os.path.join(self.dir, "bin")
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.bin)
        os.makedirs(self.tmp)
        if os.path.isdir(BASE_CACHE):
            shutil.copytree(BASE_CACHE, self.cache)
        else:
            os.makedirs(self.cache)
        self._pch = threading.Thread(target=self._make_pch, daemon=True)
        self._pch.start()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # FEniCS compiles every Expression with a C++ compiler call that spends most
    # of its time parsing headers.  A precompiled header and -O0 make that four
    # times cheaper; the generated code is the same.  If the header cannot be
    # built the shim just calls the real compiler.
    def _make_pch(self):
        hdr = os.path.join(self.dir, "pch.h")
        with open(hdr, "w") as f:
            f.write("#include <dolfin/function/Expression.h>\n"
                    "#include <dolfin/math/basic.h>\n#include <Eigen/Dense>\n")
        inc = self._include_dirs()
        real = shutil.which("c++") or "/usr/bin/c++"
        # the shim falls back by itself until the header exists
        shim = os.path.join(self.bin, "c++")
        with open(shim, "w") as f:
            f.write("""#!/bin/bash
args=(); expr=0
for a in "$@"; do
  case "$a" in
    -O2|-O3) args+=(-O0);;
    *dolfin_expression_*.cpp) expr=1; args+=("$a");;
    *) args+=("$a");;
  esac
done
if [ $expr = 1 ] && [ -f %(h)s.gch.ok ]; then
  exec %(cc)s -include %(h)s "${args[@]}"
fi
exec %(cc)s "${args[@]}"
""" % dict(h=hdr, cc=real))
        os.chmod(shim, 0o755)
        r = subprocess.run(
            [real, "-Wall", "-fPIC", "-std=c++11", "-O0", "-fno-math-errno",
             "-fno-trapping-math", "-ffinite-math-only"] + inc +
            ["-x", "c++-header", hdr, "-o", hdr + ".gch"],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            open(hdr + ".gch.ok", "w").close()

    def _include_dirs(self):
        logs = os.path.join(BASE_CACHE, "log")
        try:
            for n in sorted(os.listdir(logs)):
                if n.startswith("dolfin_expression_"):
                    line = open(os.path.join(logs, n)).readline()
                    return [a for a in line.split() if a.startswith("-I") and "dijitso" not in a]
        except OSError:
            pass
        return []

    def env(self, i=0):
        e = dict(os.environ)
        tmp = os.path.join(self.tmp, "w%d" % i)
        os.makedirs(tmp, exist_ok=True)
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                 OPENBLAS_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
                 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", DIJITSO_CACHE_DIR=self.cache,
                 PATH=self.bin + ":" + e.get("PATH", "/usr/bin:/bin"),
                 TMPDIR=tmp, VERIF_SCRATCH=tmp, PYTHONPATH=REPO + ":" + HARNESS,
                 HOME=e.get("HOME", "/root"), MPLBACKEND="Agg")
        return e


# ---------------------------------------------------------------- worker pool
class Worker:
    def __init__(self, scratch, i):
        self.scratch, self.i = scratch, i
        self.start()

    def start(self):
        r, w = os.pipe()
        env = self.scratch.env(self.i)
        env["VERIF_OUT_FD"] = str(w)
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(HARNESS, "worker.py")],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None,
            env=env, pass_fds=(w,), cwd=env["TMPDIR"], start_new_session=True)
        os.close(w)
        self.out = os.fdopen(r, "r")

    def run(self, case, timeout):
        """One case -> list of events. A hang or a crash is itself an event."""
        box = queue.Queue()

        def read():
            try:
                box.put(self.out.readline())
            except Exception:
                box.put("")
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.restart()
            return {"events": [], "end": "crash", "err": "worker died"}
        th = threading.Thread(target=read, daemon=True)
        th.start()
        try:
            line = box.get(timeout=timeout)
        except queue.Empty:
            self.restart()
            return {"events": [], "end": "timeout", "err": "no result in %ds" % timeout}
        if not line:
            self.restart()
            return {"events": [], "end": "crash", "err": "worker died"}
        return json.loads(line)

    def restart(self):
        self.kill()
        self.start()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def run_cases(scratch, cases, timeout=150, nproc=None, deadline=None):
    """Run every case on the real code; results in the order of the cases.

    Cases that share `grp` share compiled forms: the first case of each group is
    dispatched first so that the other ones find a warm cache.
    """
    scratch._pch.join()
    nproc = min(nproc or NCPU, max(1, len(cases)))
    results = [None] * len(cases)
    seen, first, rest = set(), [], []
    for i, c in enumerate(cases):
        g = c.get("grp")
        if g is not None and g not in seen:
            seen.add(g)
            first.append(i)
        else:
            rest.append(i)
    q = queue.Queue()
    for i in first + rest:
        q.put(i)

    def loop(k):
        w = Worker(scratch, k)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                if deadline and time.time() > deadline:
                    continue
                results[i] = w.run(cases[i], timeout)
        finally:
            w.kill()
    ths = [threading.Thread(target=loop, args=(k,), daemon=True) for k in range(nproc)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return results


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"([\d,]+) states checked", out)
            self.generated = self.distinct = int(m[-1].replace(",", "")) if m else 0
        self.ok = "No error has been found" in out or (
            "Error:" not in out and rc == 0)


def tlc(scratch, module, cfg, extra=(), workers=None, timeout=600, env=None, files=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>; data files sit in a private dir."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch.dir)
    for n in os.listdir(SPEC):
        if n.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, n), d)
    for name, text in files:
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"),
           "-config", cfg, "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired as e:
        raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
    res = TLCResult(p.stdout, p.returncode, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_model(scratch, module, cfg, **kw):
    r = tlc(scratch, module, cfg, **kw)
    if not r.ok:
        raise MachineryError("model checking %s/%s failed:\n%s" % (module, cfg, r.out[-3000:]))
    return r


JSON_LINE = re.compile(r'^"?(GEN|VERDICT) (.*?)"?$')


def printed(res, tag):
    """Lines a spec printed with PrintT("<tag> " \\o ToJson(..))."""
    out = []
    for line in res.out.splitlines():
        if line.startswith('"%s ' % tag):
            s = json.loads(line)          # a TLA+ string literal is a JSON string here
            out.append(json.loads(s[len(tag) + 1:]))
    return out


def tlc_validate(scratch, module, cfg, traces, timeout=600, extra_files=()):
    """Validate recorded traces against a trace spec.

    The trace spec is total: it prints one VERDICT per trace with the set of
    failed clauses.  A missing verdict is a failure of the machinery."""
    text = "".join(json.dumps(t) + "\n" for t in traces)
    r = tlc(scratch, module, cfg, timeout=timeout,
            files=[("traces.ndjson", text)] + list(extra_files), extra=["-deadlock"])
    v = {}
    for x in printed(r, "VERDICT"):
        v[x["id"]] = x
    missing = [t["id"] for t in traces if t["id"] not in v]
    if missing or not r.ok:
        raise MachineryError("trace validation with %s incomplete (%d missing)\n%s"
                             % (module, len(missing), r.out[-3500:]))
    return v, r
