"""Runs cases on the real FESTIM.  One JSON case per stdin line, one JSON result
per line on the fd VERIF_OUT_FD.  Never decides anything."""
import importlib, json, os, shutil, signal, sys, traceback, warnings

warnings.simplefilter("ignore")
out = os.fdopen(int(os.environ["VERIF_OUT_FD"]), "w")


def _move(src, dst):
    """Atomic move into the shared JIT cache.  dijitso's own version fails now and
    then when two workers compile the same form at once; here either copy may win."""
    tmp = "%s.w%d" % (dst, os.getpid())
    shutil.move(src, tmp)
    os.replace(tmp, dst)


def patch_jit():
    import dijitso.system, dijitso.build, dijitso.cache
    for m in (dijitso.system, dijitso.build, dijitso.cache):
        if hasattr(m, "lockfree_move_file"):
            m.lockfree_move_file = _move


class CaseTimeout(BaseException):
    pass


def on_alarm(*a):
    raise CaseTimeout()


signal.signal(signal.SIGALRM, on_alarm)


def main():
    patch_jit()
    for line in sys.stdin:
        case = json.loads(line)
        mod = importlib.import_module("suite_" + case["suite"])
        rec = {"events": []}
        signal.alarm(int(case.get("alarm", 120)))
        try:
            try:
                mod.execute(case, rec)
                rec.setdefault("end", "ok")
            finally:
                signal.alarm(0)
        except CaseTimeout:
            rec["end"] = "timeout"
        except Exception as e:
            rec["end"] = "harness:" + type(e).__name__
            rec["err"] = traceback.format_exc()[-1500:]
        out.write(json.dumps(rec) + "\n")
        out.flush()


main()
