"""Bootstrap: one interpreter that can import the real code of /repo and z3.

The code under verification is always imported from /repo's working tree (or from
$VERIF_REPO, used only to try the machinery on scratch copies).
"""
import os, sys, tempfile, atexit, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_READY = False
SCRATCH = None


def bootstrap():
    global _READY, SCRATCH
    if _READY:
        return
    _READY = True
    sys.dont_write_bytecode = True
    SCRATCH = tempfile.mkdtemp(prefix="verif_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    for key in [k for k in os.environ if k.startswith("ECOENV")]:
        del os.environ[key]
    for v in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR"):
        os.environ["ECOENV_" + v] = SCRATCH
    os.environ["ECOENV_LOG_LEVEL"] = "critical"
    sys.argv = ["verif_app.py", "-i", "0", "-lfo"]
    sys.path[:] = [REPO, REPO + "/ekosis_prometheus"] + [p for p in sys.path if p not in ("", REPO, "/repo/ekosis_prometheus", REPO + "/ekosis_prometheus")]
    if _VT not in sys.path:
        sys.path.append(_VT)
    sys.setrecursionlimit(20000)
    import logging
    import ekosis  # noqa
    f = os.path.abspath(list(ekosis.__path__)[0] if not ekosis.__file__ else os.path.dirname(ekosis.__file__))
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"ekosis imported from {f}, not from {REPO}")
    logging.getLogger().setLevel(logging.CRITICAL)


def scratch_dir(prefix="d"):
    bootstrap()
    return tempfile.mkdtemp(prefix=prefix, dir=SCRATCH)


def escaped(e, scn):
    """An exception that ended a scenario: one that came through the code under check (or a hang) is a failure of
    that code; one of the harness itself is an error of the harness (raised again, never a verdict)."""
    import traceback, asyncio
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.path.abspath(REPO) + os.sep
    if isinstance(e, (TimeoutError, asyncio.TimeoutError)) or any(os.path.abspath(f.filename).startswith(repo) for f in tb):
        return f"exception {type(e).__name__}: {e} during {scn}"
    raise e


def guard_solver(z3):
    """z3's own time limit is occasionally lost (its timer fires in a phase that ignores it) and the call then never ends:
    a second clock interrupts a call that is well over its limit; it then answers unknown."""
    import threading, time
    S = z3.Solver
    if getattr(S, "dv_guarded", False): return
    S.dv_guarded = True
    state = {"until": None, "pid": None}
    set0, check0 = S.set, S.check
    def set_(self, *a, **k):
        if len(a) == 2 and a[0] == "timeout": self.dv_ms = a[1]
        return set0(self, *a, **k)
    def watch():
        while True:
            time.sleep(0.25)
            u = state["until"]
            if u is not None and time.time() > u: z3.main_ctx().interrupt()
    def check(self, *a):
        if state["pid"] != os.getpid():
            state["pid"] = os.getpid()
            threading.Thread(target=watch, daemon=True).start()
        state["until"] = time.time() + getattr(self, "dv_ms", 60000) / 1000 * 1.5 + 2
        try: return check0(self, *a)
        except z3.Z3Exception as e:
            if "cancel" in str(e) or "interrupt" in str(e): return z3.unknown
            raise
        finally: state["until"] = None
    S.set, S.check = set_, check
