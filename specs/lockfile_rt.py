"""Run-time contract of starting an instance: the real constructor on a scratch lock directory; process signals go
to a stand-in that knows which processes live."""
import errno, os, shutil, types
from dv import env

CONTENTS = [None, "", "\n", "abc\n", "12 34\n", "0x10\n", "-5\n", "0\n", "99999999999999999999999\n", "2147483648\n", "1.5\n", "\x00\x00\n", "pid", "12a", b"\xff\xfe\n", b"\x80abc",
            "{P}\n", "{P}", " {P} \n", "{D}\n", "{D}", "{N}\n", "-{P}\n", "{B}\n", "{DB}\n", "00{P}\n"]
P, D, N = 4000007, 4000009, 4000011           # live, dead, live but not ours (above the kernel's largest process id)
B, DB = 7, 12                                 # live and dead small ids


def locks(s):
    """Every pair of different instances of the listed ones has lock files of its own."""
    from ekosis import application_base as ab
    base, seen = env.scratch_dir("l"), {}
    class Stats:
        def __getattr__(self, n): return lambda *a, **k: None
    try:
        for name, inst in s["pairs"]:
            d = os.path.join(base, str(len(seen)))
            os.mkdir(d)
            app = object.__new__(ab.ApplicationBase)
            app._configuration = types.SimpleNamespace(name=name, instance=inst, lock_directory=d, tcp=None, udp=None, uds=None, buffer_directory=d, extra={}, stats_keeper=types.SimpleNamespace(gather_period=1, history_length=2))
            for f, v in list(vars(ab.ApplicationBase).items()):
                if type(v).__name__ == "StatisticsKeeper": setattr(app, f, Stats())
            try: ab.ApplicationBase.__init__(app)
            except Exception as e: return env.escaped(e, f"start of {(name, inst)}")
            files = tuple(sorted(os.listdir(d)))
            for o, (n, i) in seen.items():
                if set(o) & set(files): return f"{(name, inst)} and {(n, i)} share the lock file {files}"
            seen[files] = (name, inst)
        return None
    finally: shutil.rmtree(base, ignore_errors=True)


def run(s):
    if "pairs" in s: return locks(s)
    from ekosis import application_base as ab
    base = env.scratch_dir("l")
    d = os.path.join(base, "locks")
    os.mkdir(d)
    name, inst, sent, made = s["name"], s["inst"], [], []
    content = CONTENTS[s["content"]]
    real = os.kill, os.remove, os.unlink
    def kill(pid, sig):
        sent.append((pid, sig))
        if not -2 ** 31 <= pid < 2 ** 31: raise OverflowError("signed integer is greater than maximum")
        if pid <= 0 or pid in (P, B): return None
        if pid == N: raise PermissionError(errno.EPERM, "Operation not permitted")
        raise ProcessLookupError(errno.ESRCH, "No such process")
    def rm(f):
        def go(p, *a, **k):
            if not os.path.abspath(p).startswith(base + os.sep): raise AssertionError(f"removes {p}")
            return f(p, *a, **k)
        return go
    class Stats:
        def __getattr__(self, n): return lambda *a, **k: made.append(n)
    app = object.__new__(ab.ApplicationBase)
    app._configuration = types.SimpleNamespace(name=name, instance=inst, lock_directory=d, tcp=None, udp=None, uds=None, buffer_directory=d, extra={}, stats_keeper=types.SimpleNamespace(gather_period=1, history_length=2))
    for f, v in list(vars(ab.ApplicationBase).items()):
        if type(v).__name__ == "StatisticsKeeper": setattr(app, f, Stats())
    other = os.path.join(d, "other-app-1.lock")
    open(other, "w").write(f"{P}\n")
    try:
        # where the lock of this instance is kept: start once without a lock file
        try: ab.ApplicationBase.__init__(app)
        except Exception as e: return env.escaped(e, f"start without a lock file, {s}")
        files = sorted(set(os.listdir(d)) - {"other-app-1.lock"})
        if len(files) != 1: return f"after a start the lock directory holds {files}; {s}"
        path = os.path.join(d, files[0])
        if open(path).read().split() != [str(os.getpid())]: return f"after a start the lock file holds {open(path).read()!r}, not the process id; {s}"
        if content is None: os.remove(path)
        else:
            if isinstance(content, str): content = content.replace("{DB}", str(DB)).replace("{P}", str(P)).replace("{D}", str(D)).replace("{N}", str(N)).replace("{B}", str(B)).encode()
            open(path, "wb").write(content)
        before = made[:]
        os.kill, os.remove, os.unlink = kill, rm(real[1]), rm(real[2])
        exc = None
        try: ab.ApplicationBase.__init__(app)
        except Exception as e: exc = e
        finally: os.kill, os.remove, os.unlink = real
        if any(sig != 0 for _, sig in sent): return f"signals {sent} are sent; {s}"
        if open(other).read() != f"{P}\n": return f"the lock file of another instance is changed; {s}"
        live = content is not None and CONTENTS[s["content"]] in ("{P}\n", "{P}", " {P} \n", "{N}\n", "{B}\n", "00{P}\n")
        now = open(path, "rb").read() if os.path.exists(path) else None
        if live:
            if exc is None: return f"started though the lock file {content!r} names a live process; {s}"
            if not isinstance(exc, ab.InstanceAlreadyRunningException): return env.escaped(exc, s)
            if now != content: return f"a refused start changed the lock file from {content!r} to {now!r}; {s}"
            if made != before: return f"a refused start set up {made[len(before):]}; {s}"
            return None
        if exc is not None: return f"lock file {content!r}: start fails with {exc!r}; {s}"
        if now is None or now.split() != [str(os.getpid()).encode()]: return f"after a start the lock file holds {now!r}; {s}"
        # another instance of the same application is not hindered
        app2 = object.__new__(ab.ApplicationBase)
        app2.__dict__.update(vars(app))
        app2._configuration = types.SimpleNamespace(**{**vars(app._configuration), "instance": inst + "x"})
        os.kill = kill
        open(path, "w").write(f"{P}\n")
        try: ab.ApplicationBase.__init__(app2)
        except ab.InstanceAlreadyRunningException: return f"another instance is refused; {s}"
        finally: os.kill = real[0]
        if open(path).read() != f"{P}\n": return f"another instance changed the lock file; {s}"
        return None
    finally:
        os.kill, os.remove, os.unlink = real
        shutil.rmtree(base, ignore_errors=True)


NAMES = ["app", "app_1", "a-b", "x"]


INSTS = ["0", "00", "1", "01", "main", "Main", "MAIN", "a.b", "a_b", "a b", "-1", "_1", ".1", "1-", "1_", "1.lock", "--", "a--b", "x" * 60 + "1", "x" * 60 + "2"]


def exhaustive(tier):
    for n in ("app", "App"): yield {"pairs": [[n, i] for i in INSTS]}
    yield {"pairs": [["app", "1"], ["app_1", "1"], ["app_1_1", "1"], ["appx", "1"], ["ap", "p1"], ["ap", "1"]]}
    for c in range(len(CONTENTS)):
        for n in NAMES[:2]: yield {"content": c, "name": n, "inst": "0"}


def scenarios(rnd):
    while True: yield {"content": rnd.randrange(len(CONTENTS)), "name": rnd.choice(NAMES), "inst": rnd.choice(INSTS)}
