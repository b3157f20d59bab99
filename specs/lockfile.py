"""Contracts of starting an instance (C17): ApplicationBase.__init__ against a lock file in any state."""
import os
import z3
from dv.core import *
from dv.interp import Interp
from . import common as C
from .common import opaque

ALIVE, OURS = z3.Function("process_alive", I, B), z3.Function("process_is_ours", I, B)
SERVERS = ("TCPServer", "UDPServer", "UDSServer")


class FS(Ext):
    """The one lock file: absent, naming a process, or without a readable process id."""
    def same(self, it, path):
        t = it.term(path)
        if self.st.get("path") is None:
            self.set("path", path); self.set("term", t)
            return
        self.ctx.oblige("one lock file is looked at, removed and written", t == self.st["term"], repr(path))
        if not t.eq(self.st["term"]): raise PathEnd()
    def present(self): return self.st["state"] != "absent"


class File(Ext):
    def m___enter__(self, it): return self
    def m___exit__(self, it, *a): self.m_close(it)
    def m_close(self, it):
        if self.st["closed"]: return
        self.set("closed", True)
        fs = self.st["fs"]
        if self.st["mode"] == "w": fs.set("state", ("text", tuple(self.st["out"])) if self.st["out"] else "junk")
    def m_flush(self, it): pass
    def m_readline(self, it, *a): return self.content(it)
    def m_read(self, it, *a): return self.content(it)
    def content(self, it):
        if self.st["mode"] != "r": raise Unsupported("reading a file opened for writing")
        if self.st["fs"].st["state"] == "undecodable": it.raise_py(UnicodeDecodeError, "invalid start byte")
        return SVal(self.st["fs"].st["content"], str)
    def m_write(self, it, v):
        if self.st["mode"] != "w": raise Unsupported("writing a file opened for reading")
        self.set("out", self.st["out"] + [v])
        return 1


def app(ctx):
    from ekosis import application_base as ab
    it = C.interp(ctx)
    cfgT = type(ab.ApplicationBase._configuration)
    fs = FS(ctx, state=["absent", "pid", "junk", "undecodable"][ctx.choose_n(4, "lock_file")],
            content=ctx.fresh_u("lock_file_text"), path=None)
    ctx.assume(fs.st["content"] != NONE)
    fs.st0 = fs.st["state"]
    me, k = ctx.fresh_int("own_pid"), ctx.fresh_int("named_pid")
    ctx.assume(z3.And(me >= 1, me < 2 ** 22, k != me))
    fs.pid, fs.me = k, me
    it.models[os.getpid] = lambda it: SInt(me)
    def kill(it, pid, sig):
        ctx.event("kill", pid=pid, sig=sig)
        ctx.oblige("no process is sent a signal", (it.z(sig) == 0) if not isinstance(sig, int) else sig == 0, repr(sig))
        p = it.z(pid)
        if ctx.branch(z3.Or(p >= 2 ** 31, p < -2 ** 31)): it.raise_py(OverflowError, "signed integer is greater than maximum")
        if ctx.branch(p <= 0): return None                      # addresses process groups: one of them exists
        if not ctx.branch(ALIVE(p)): it.raise_py(ProcessLookupError, "No such process")
        if not ctx.branch(OURS(p)): it.raise_py(PermissionError, "Operation not permitted")
        return None
    it.models[os.kill] = kill
    def exists(it, p): fs.same(it, p); return fs.present()
    it.models[os.path.exists] = it.models[os.path.isfile] = it.models[os.path.lexists] = exists
    def remove(it, p, *a, **kw):
        fs.same(it, p)
        ctx.event("removed", state=fs.st["state"])
        if not fs.present(): it.raise_py(FileNotFoundError, "No such file or directory")
        fs.set("state", "absent")
    it.models[os.remove] = it.models[os.unlink] = remove
    it.models[os.path.join] = lambda it, *a: it.concat([x for i, p in enumerate(a) for x in (["/", p] if i else [p])])
    def open_(it, p, mode="r", *a, **kw):
        fs.same(it, p)
        if mode in ("r", "rt"):
            if not fs.present(): it.raise_py(FileNotFoundError, "No such file or directory")
            return File(ctx, fs=fs, mode="r", out=[], closed=False)
        if mode in ("w", "wt", "x", "xt"):
            if mode[0] == "x" and fs.present(): it.raise_py(FileExistsError, "File exists")
            ctx.event("truncated", state=fs.st["state"])
            fs.set("state", "junk")
            return File(ctx, fs=fs, mode="w", out=[], closed=False)
        raise Unsupported("open mode")
    it.models[open] = open_
    def parse(it, v=0, base=10):
        if base != 10: raise Unsupported("int base")
        t = v.z
        while z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith("str_") and "strip" in t.decl().name(): t = t.arg(0)
        if not t.eq(fs.st["content"]): raise Unsupported("number in an unknown text")
        if fs.st0 == "pid": return SInt(k)
        it.raise_py(ValueError, "invalid literal for int() with base 10")
    it.models[("int()", str)] = parse
    for n in SERVERS: it.models[getattr(ab, n)] = lambda it, *a, _n=n, **kw: (ctx.event("server", name=_n), opaque(ctx, _n))[1]
    class Stats(C.StatsExt):
        def m_set_gather_period(self, it, v): ctx.event("server", name="statistics")
        def m_set_history_length(self, it, v): pass
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
    name, inst, d = (opaque(ctx, n, str) for n in ("app_name", "instance", "lock_directory"))
    fields = {}
    for f in [f for f, v in vars(cfgT).items() if not f.startswith("__") and not callable(v)]: fields[f] = {"name": name, "instance": inst, "lock_directory": d}.get(f)
    for n in ("tcp", "udp", "uds"):
        if n in fields: fields[n] = None
    class Cfg(Ext):
        def g_gather_period(self, it): return SInt(ctx.fresh_int("gather_period"))
        def g_history_length(self, it): return SInt(ctx.fresh_int("history_length"))
    fields["stats_keeper"] = Cfg(ctx)
    cfg = Obj(ctx, cfgT, fields)
    own = {"_configuration": cfg}
    for f, v in vars(ab.ApplicationBase).items():
        if isinstance(v, StatisticsKeeper): own[f] = Stats(ctx)
        elif isinstance(v, cfgT): own[f] = cfg
    it.singletons[StatisticsKeeper], it.singletons[cfgT] = Stats(ctx), cfg
    o = Obj(ctx, ab.ApplicationBase, own)
    return it, fs, o, (name, inst, d), ab


def start(ctx):
    it, fs, o, (name, inst, d), ab = app(ctx)
    exc = None
    try: it.call(it.getattr(o, "__init__"), [], {})
    except PyExc as e: exc = e
    ev = ctx.trace
    live = fs.st0 == "pid" and ctx.branch(z3.And(fs.pid >= 1, fs.pid < 2 ** 31, ALIVE(fs.pid)))
    if live:
        ctx.oblige("start is refused while a live process holds the lock", exc is not None)
        if exc is None: return
        ctx.oblige("the refusal says that the instance is running", isinstance(exc.val, Obj) and issubclass(exc.val.cls, ab.InstanceAlreadyRunningException), repr(exc.val))
        ctx.oblige("a refused start leaves the lock file alone", fs.st["state"] == "pid" and not any(k in ("removed", "truncated") for k, _ in ev))
        ctx.oblige("a refused start sets nothing up", not any(k == "server" for k, _ in ev))
        return
    ctx.oblige(f"a lock file that is {fs.st0 if fs.st0 != 'pid' else 'left behind by a dead process'} does not prevent starting", exc is None, repr(exc and exc.val) + str(getattr(getattr(exc, "val", None), "fields", "")))
    if exc is not None: return
    st = fs.st["state"]
    ctx.oblige("a started process holds a lock file", isinstance(st, tuple), repr(st))
    if not isinstance(st, tuple): return
    t = it.concat(list(st[1]))
    parts = t.pieces if isinstance(t, SVal) and getattr(t, "pieces", None) else [t]
    parts = [p for p in parts if not (isinstance(p, str) and not p.strip())]
    mine = it.term(it.str_(SInt(fs.me)))
    ok = len(parts) == 1 and not isinstance(parts[0], str)
    ctx.oblige("the lock file names the process", ok and it.term(parts[0]) == mine, repr(parts))
    p = fs.st["path"]
    terms = [it.term(x) for x in (p.pieces if getattr(p, "pieces", None) else [p]) if not isinstance(x, str)]
    ctx.oblige("the lock file is in the lock directory and belongs to the application and its instance",
               bool(terms) and terms[0].eq(d.z) and any(x.eq(name.z) for x in terms) and any(x.eq(inst.z) for x in terms) and len(terms) == 3, repr(terms))
    opens = [1 for k, _ in ev if k == "server"]
    ctx.oblige("the instance is set up", bool(opens))
