"""Contracts of logging (C22): the buffering file handler, the level and buffer size in force, the formatted record."""
import datetime, io, logging, logging.handlers as lh
import z3
from dv.core import *
from dv import methods
from dv.interp import Interp, MDict
from . import common as C
from .common import call, opaque

REC = z3.Function("logged_record", I, U)
BANDS = {10: (5, "DEBUG"), 20: (9, "INFO"), 30: (13, "WARN"), 40: (17, "ERROR"), 50: (21, "FATAL")}


class Lock(Ext):
    """The handler's re-entrant lock; while it is not held other threads may log and flush."""
    def __init__(self, ctx, w): super().__init__(ctx, n=0); self.w = w
    def m_acquire(self, it, *a, **k):
        self.set("n", self.st["n"] + 1)
        if self.st["n"] == 1 and self.w.h is not None: self.w.havoc()
        return True
    def m_release(self, it):
        if self.st["n"] == 0: it.raise_py(RuntimeError, "cannot release un-acquired lock")
        self.set("n", self.st["n"] - 1)
    def m___enter__(self, it): return self.m_acquire(it)
    def m___exit__(self, it, *a): self.m_release(it)


class FileExt(Ext):
    """RotatingFileHandler: emit appends the record to the log."""
    pycls = lh.RotatingFileHandler
    def __init__(self, ctx, w):
        super().__init__(ctx, closed=False, formatter=None)
        self.w = w
    def m_emit(self, it, record):
        w = self.w
        self.ctx.oblige("records are written while the handler's lock is held", w.lock.st["n"] > 0)
        self.ctx.oblige("records are written before the file is closed", not self.st["closed"])
        methods.call_method(it, w.written, "append", [record], {})
    def m_handle(self, it, record): self.m_emit(it, record); return True
    def m_flush(self, it): pass
    def m_setFormatter(self, it, f): self.set("formatter", f)
    def m_setLevel(self, it, l): self.set("level", l)
    def m_acquire(self, it): pass
    def m_release(self, it): pass
    def m_close(self, it): self.set("closed", True)


class W:
    def __init__(self, ctx, ready=True):
        from ekosis.logs.buffered_rotating_file_handler import BufferedRotatingFileHandler as H
        self.ctx, self.h, self.H, self.files = ctx, None, H, []
        it = self.it = C.interp(ctx)
        install(it, self)
        self.written = MList(ctx, [])
        self.cap = ctx.fresh_int("buffer_size")
        self.name = opaque(ctx, "file_name", str)
        if not ready: return
        self.h = it.call(H, [self.name], {"buffer_size": SInt(self.cap)})
        self.lock = self.h.fields["lock"]
        bufs = [f for f, v in self.h.fields.items() if isinstance(v, MList)]
        if len(bufs) != 1 or len(self.files) != 1: raise Unsupported("not one buffer and one file")
        self.buf = bufs[0]
        self.file = self.files[0]["file"]
        c2 = ctx.fresh_int("buffer_size_in_force")
        call(it, self.h, "set_buffer_size", SInt(c2))
        self.cap = c2
        self.havoc()

    def havoc(self):
        """any state in which the log and the buffer make up what was logged."""
        ctx = self.ctx
        k, n = ctx.fresh_int("written"), ctx.fresh_int("logged")
        ctx.small += [k, n]
        ctx.assume(z3.And(k >= 0, n >= k))
        self.lock.set("logged", n)
        ctx.touch(self.written)
        self.written.items, self.written.n, self.written.get = None, k, lambda i: SVal(REC(i), logging.LogRecord)
        self.it.setattr(self.h, self.buf, MList(ctx, None, z3.simplify(n - k), lambda i: SVal(REC(k + i), logging.LogRecord)))

    @property
    def n(self): return self.lock.st["logged"]

    def run(self, name, *a, **k):
        try: return "ok", call(self.it, self.h, name, *a, **k)
        except PyExc as e: return "raise", e.val

    def holds(self, what, n):
        """log + buffer are the records 0..n-1, in order"""
        ctx, it = self.ctx, self.it
        b = self.h.fields.get(self.buf)
        if not isinstance(b, MList): raise Unsupported("the buffer is no longer a list")
        lb, lw = it.z(methods.seq_len(it, b)), it.z(methods.seq_len(it, self.written))
        i = ctx.fresh_int("position")
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.oblige(what + ": log and buffer hold as many records as were logged", lw + lb == n)
        def at(l, j):
            if l.symbolic: return it.term(l.get(j))
            r = REC(z3.IntVal(-1))
            for q, v in enumerate(l.items): r = z3.If(j == q, it.term(v), r)
            return r
        if ctx.branch(i < lw): ctx.oblige(what + ": the log has the records in the order of logging", at(self.written, i) == REC(i))
        elif ctx.branch(i < lw + lb): ctx.oblige(what + ": the buffer has the rest in the order of logging", at(b, z3.simplify(i - lw)) == REC(i))
        return lb


def install(it, w):
    ctx = it.ctx
    it.setattr_models[(logging.LogRecord, "*")] = lambda it, v, n, val: None
    from ekosis.requests import request_context
    it.models.setdefault(request_context._get_current_span_key, lambda it: opaque(ctx, "current_span_key"))
    def hinit(it, self_, level=0):
        for k, v in {"_name": None, "level": level, "formatter": None, "_closed": False}.items(): it.setattr(self_, k, v)
        it.setattr(self_, "filters", ())
        w.lock = Lock(ctx, w)
        it.setattr(self_, "lock", w.lock)
    it.models[logging.Handler.__init__] = hinit
    it.models[logging.Handler.acquire] = lambda it, s: it.call(it.getattr(it.getattr(s, "lock"), "acquire"), [], {})
    it.models[logging.Handler.release] = lambda it, s: it.call(it.getattr(it.getattr(s, "lock"), "release"), [], {})
    it.models[logging.Handler.close] = lambda it, s: None
    it.models[logging.Handler.setLevel] = lambda it, s, l: it.setattr(s, "level", l)
    for f in ("__init__", "emit", "shouldFlush", "flush", "close"):
        fn = vars(lh.BufferingHandler)[f]
        it.models[fn] = lambda it, *a, fn=fn, **k: it.call_real(fn, list(a), k)
    def file(it, filename, mode="a", maxBytes=0, backupCount=0, encoding=None, delay=False, errors=None):
        f = FileExt(ctx, w)
        w.files.append({"file": f, "name": filename, "max": maxBytes, "count": backupCount, "mode": mode})
        return f
    it.models[lh.RotatingFileHandler] = file


def emit(ctx):
    w = W(ctx); it = w.it
    w.lock.set("n", 1)                    # logging.Handler.handle calls emit with the lock held
    n0 = w.n
    how, v = w.run("emit", SVal(REC(n0), logging.LogRecord))
    ctx.oblige("logging does not fail", how == "ok", repr(v))
    if how != "ok": return
    lb = w.holds("logging", z3.simplify(n0 + 1))
    ctx.oblige("a full buffer has been written", z3.Or(lb == 0, lb < w.cap))
    ctx.oblige("the lock is left as it was", w.lock.st["n"] == 1)


def flush(name):
    def task(ctx):
        w = W(ctx)
        how, v = w.run(name)
        ctx.oblige(f"{name}: does not fail", how == "ok", repr(v))
        if how != "ok": return
        lb = w.holds(name, w.n)
        ctx.oblige(f"{name}: everything logged before is in the log afterwards", lb == 0)
        ctx.oblige(f"{name}: the lock is released", w.lock.st["n"] == 0)
        if name == "close": ctx.oblige("close: the file is closed", w.file.st["closed"])
    return task


def resize(ctx):
    """The buffer size changes while records are buffered: none of them is lost, and the new size is in force."""
    w = W(ctx); it = w.it
    c = ctx.fresh_int("new_buffer_size")
    how, v = w.run("set_buffer_size", SInt(c))
    ctx.oblige("resizing: does not fail", how == "ok", repr(v))
    if how != "ok": return
    w.holds("resizing", w.n)
    ctx.oblige("resizing: the lock is released", w.lock.st["n"] == 0)
    w.havoc(); w.lock.set("n", 1)
    n0 = w.n
    how, v = w.run("emit", SVal(REC(n0), logging.LogRecord))
    if how == "ok":
        lb = w.holds("logging after resizing", z3.simplify(n0 + 1))
        ctx.oblige("resizing: the new size is in force", z3.Or(lb == 0, lb < c))


def made(ctx):
    w = W(ctx, False); it = w.it
    mx, cnt = ctx.fresh_int("max_bytes"), ctx.fresh_int("backup_count")
    h = it.call(w.H, [w.name], {"buffer_size": SInt(w.cap), "max_bytes": SInt(mx), "backup_count": SInt(cnt)})
    ok = len(w.files) == 1
    ctx.oblige("a handler writes one file", ok)
    if not ok: return
    f = w.files[0]
    ctx.oblige("it is the given file, rotated as given, and appended to", z3.And(it.term(f["name"]) == w.name.z, it.z(f["max"]) == mx, it.z(f["count"]) == cnt, z3.BoolVal(f["mode"] == "a")))
    bufs = [v for v in h.fields.values() if isinstance(v, MList)]
    ctx.oblige("it starts with nothing buffered", all(not b.symbolic and not b.items for b in bufs))
    w.h, w.lock = h, h.fields["lock"]
    bn = [k for k, v in h.fields.items() if isinstance(v, MList)]
    if len(bn) != 1: raise Unsupported("not one buffer")
    w.buf, w.file = bn[0], f["file"]
    w.havoc(); w.lock.set("n", 1)
    n0 = w.n
    how, v = w.run("emit", SVal(REC(n0), logging.LogRecord))
    if how == "ok": ctx.oblige("the given buffer size is in force", z3.Or(w.holds("first record", z3.simplify(n0 + 1)) == 0, it.z(methods.seq_len(it, h.fields[w.buf])) < w.cap))
    fm = opaque(ctx, "formatter")
    w.run("setFormatter", fm)
    ctx.oblige("records are formatted by the formatter set", it.term(w.file.st["formatter"]) == fm.z if w.file.st["formatter"] is not None else False)


def severity(ctx):
    from ekosis.data_transfer_objects.otlp_log_record import severity_for_levelno
    it = Interp(ctx)
    n = ctx.fresh_int("levelno")
    r = it.call(severity_for_levelno, [SInt(n)], {})
    ok = isinstance(r, tuple) and len(r) == 2 or isinstance(r, MList) and r.items is not None and len(r.items) == 2
    ctx.oblige("severity has a number and a text", ok, repr(r))
    if not ok: return
    a, b = r if isinstance(r, tuple) else r.items
    num, txt = z3.IntVal(0), it.term("UNSPECIFIED")
    for l, (x, y) in BANDS.items(): num, txt = z3.If(n == l, x, num), z3.If(n == l, it.term(y), txt)
    ctx.oblige("the severity number belongs to the level", it.z(a) == num)
    ctx.oblige("the severity text belongs to the level", it.term(b) == txt)


class Rec(Ext):
    """A log record; attributes may be added to it."""
    pycls = logging.LogRecord
    real = set(vars(logging.LogRecord("n", 20, "p", 1, "m", (), None))) | set(dir(logging.LogRecord))
    def __init__(self, ctx):
        super().__init__(ctx, levelno=SInt(ctx.fresh_int("levelno")), text=opaque(ctx, "message", str), msg=opaque(ctx, "message_template"), args=opaque(ctx, "message_arguments"), created=opaque(ctx, "created"))
        self.st["term"] = opaque(ctx, "record", logging.LogRecord).z
    def m_getMessage(self, it): return self.st["text"]
    def g_filename(self, it): return SVal(self.ctx.fresh_u("filename"), str)
    g_module = g_funcName = g_name = g_filename
    def g_lineno(self, it): return SInt(self.ctx.fresh_int("lineno"))
    def __getattr__(self, n):
        if n.startswith("s_") and n[2:] not in self.real: return lambda it, v: self.set("+" + n[2:], v)
        raise AttributeError(n)
    def getattr_(self, it, name):
        if "+" + name in self.st: return self.st["+" + name]
        if name in self.real or name in ("st", "ident"): raise Unsupported(f"LogRecord.{name}")
        it.raise_py(AttributeError, name)


class Id(Ext):
    def g_hex(self, it): return self.st["hex"]


class Key(Ext):
    """The span key of some request."""
    def __init__(self, ctx, n): super().__init__(ctx, trace=opaque(ctx, n + "_trace", str), span=opaque(ctx, n + "_span", str))
    def g_trace_id(self, it): return Id(self.ctx, hex=self.st["trace"])
    def g_span_id(self, it): return Id(self.ctx, hex=self.st["span"])
    def truth(self, it): return True


def format_(ctx):
    from ekosis.logs import otlp_formatter as F
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.requests import request_context as rc
    it = C.interp(ctx)
    out = []
    iso = z3.Function("iso_time", U, U)
    def dumped(it, v, *a, **k):
        if a or k: raise Unsupported("model_dump_json with arguments")
        out.append(v)
        return SVal(ctx.fresh_u("json_line"), str)
    it.models["model_dump_json"] = dumped
    cfg = type("Cfg", (Ext,), {"g_name": lambda s, it: opaque(ctx, "app", str), "g_instance": lambda s, it: opaque(ctx, "inst", str)})(ctx)
    it.models[F.AppConfiguration] = lambda it: cfg
    class Time(Ext):
        def m_isoformat(self, it, *a, **k):
            if a or k: raise Unsupported("isoformat")
            return SVal(iso(self.st["t"]), str)
    def stamp(it, created, tz=None):
        if tz is not datetime.timezone.utc: raise Unsupported("time zone")
        return Time(ctx, t=it.term(created))
    class DT(Ext):
        def m_fromtimestamp(self, it, created, tz=None): return stamp(it, created, tz)
    class DTM(Ext):
        def g_datetime(self, it): return DT(ctx)
        def g_timezone(self, it): return it.wrap(datetime.timezone)
    it.globals_override[(F.__name__, "datetime")] = DTM(ctx)
    now = [None]
    current = lambda it: now[0]
    from ekosis.requests import request_context
    it.models[request_context._get_current_span_key] = current
    rec = Rec(ctx)
    # logged through the buffering handler while one request is handled (or none), written later, while any other is
    kx = now[0] = Key(ctx, "logged_in") if ctx.choose("logged_in_a_request") else None
    buffered = ctx.choose("through_the_file_handler")
    if buffered:
        w = W(ctx, False)
        w.it = it
        install(it, w)
        h = it.call(w.H, [w.name], {"buffer_size": 2})
        w.lock.set("n", 1)
        try: it.call(it.getattr(h, "emit"), [rec], {})
        except PyExc as e: ctx.oblige("logging does not fail", False, repr(e.val) + str(getattr(e.val, "fields", ""))); return
        now[0] = Key(ctx, "written_in") if ctx.choose("written_in_a_request") else None
    there = kx is not None
    f = Obj(ctx, F.OtlpFormatter, {})
    try: r = it.call(it.getattr(f, "format"), [rec], {})
    except PyExc as e:
        ctx.oblige("formatting does not fail", False, repr(e.val) + str(getattr(e.val, "fields", ""))); return
    ok = len(out) == 1 and isinstance(out[0], Obj)
    if not ok: raise Unsupported("record is not dumped once")
    o = out[0].fields
    need = {"severity_number", "severity_text", "body", "timestamp"}
    ctx.oblige("the record has severity, body and time", need <= set(o), repr(sorted(o)))
    if not need <= set(o): return
    n = rec.st["levelno"].z
    num, txt = z3.IntVal(0), it.term("UNSPECIFIED")
    for l, (x, y) in BANDS.items(): num, txt = z3.If(n == l, x, num), z3.If(n == l, it.term(y), txt)
    ctx.oblige("the record has the severity of its level", z3.And(it.z(o["severity_number"]) == num, it.term(o["severity_text"]) == txt))
    ctx.oblige("the record has its message", it.term(o["body"]) == rec.st["text"].z)
    ctx.oblige("the record has the time it was logged", it.term(o["timestamp"]) == iso(rec.st["created"].z))
    if there: ctx.oblige("the record has the trace and span of the request it was logged in", z3.And(it.term(o["trace_id"]) == kx.st["trace"].z, it.term(o["span_id"]) == kx.st["span"].z))
    else: ctx.oblige("a record outside a request has no trace and span", o.get("trace_id") is None and o.get("span_id") is None)


# ---------------------------------------------------------------- EcoLogger
LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "critical": 50}


class Root(Ext):
    pycls = logging.Logger
    def __init__(self, ctx): super().__init__(ctx, level=None, handlers=[])
    def m_setLevel(self, it, l): self.set("level", l)
    def m_addHandler(self, it, h): self.set("handlers", self.st["handlers"] + [h])
    def m_info(self, it, *a, **k): pass
    m_debug = m_warning = m_error = m_info


class Console(Ext):
    pycls = logging.StreamHandler
    def __init__(self, ctx): super().__init__(ctx, level=None, formatter=None, flushed=0)
    def m_setLevel(self, it, l): self.set("level", l)
    def m_setFormatter(self, it, f): self.set("formatter", f)
    def m_flush(self, it): self.set("flushed", self.st["flushed"] + 1)


class FH(Ext):
    """The contract of BufferedRotatingFileHandler as EcoLogger uses it."""
    def __init__(self, ctx, args): super().__init__(ctx, level=None, formatter=None, flushed=0, size=None, **args)
    def m_setLevel(self, it, l): self.set("level", l)
    def m_setFormatter(self, it, f): self.set("formatter", f)
    def m_flush(self, it): self.set("flushed", self.st["flushed"] + 1)
    def m_set_buffer_size(self, it, n): self.set("size", n)


class L:
    def __init__(self, ctx):
        from ekosis.logs import logger as M
        self.ctx = ctx
        it = self.it = C.interp(ctx)
        self.root, self.cons, self.fhs = Root(ctx), [], []
        it.models[logging.getLogger] = lambda it, *a: self.root
        def console(it, *a):
            c = Console(ctx); self.cons.append(c); return c
        it.models[logging.StreamHandler] = console
        it.models[logging.Formatter.__init__] = lambda it, s, *a, **k: None
        def fh(it, filename, mode="a", buffer_size=0, max_bytes=0, backup_count=0, encoding=None, delay=False):
            f = FH(ctx, {"name": filename, "made": buffer_size, "max": max_bytes, "count": backup_count}); self.fhs.append(f); return f
        it.models[M.BufferedRotatingFileHandler] = fh
        class Cfg(Ext):
            def __getattr__(self, n):
                if n.startswith("g_"): return lambda it: self.st[n[2:]]
                if n.startswith("s_"): return lambda it, v: self.set(n[2:], v)
                raise AttributeError(n)
        self.only = ["both", "file", "console"][ctx.choose_n(3, "logging_to")]
        self.level = opaque(ctx, "configured_level", str)
        self.size, self.max, self.count = (ctx.fresh_int(n) for n in ("cfg_buffer_size", "cfg_max_bytes", "cfg_max_files"))
        self.dir, self.app, self.inst = (opaque(ctx, n, str) for n in ("log_directory", "application", "instance"))
        self.fcfg = Cfg(ctx, directory=self.dir, base_file_name=None, base_file_path=opaque(ctx, "old_path", str), buffer_size=SInt(self.size), max_size_in_bytes=SInt(self.max), max_files=SInt(self.count))
        lcfg = Cfg(ctx, level=self.level, console_only=self.only == "console", file_only=self.only == "file", file_logging=self.fcfg)
        acfg = Cfg(ctx, name=self.app, instance=self.inst, logging=lcfg)
        from ekosis.configuration.config_models import ConfigLogging, AppConfiguration
        for k, v in vars(M.EcoLogger).items():
            if isinstance(v, ConfigLogging): it.value_override[id(v)] = lcfg
            if isinstance(v, AppConfiguration): it.value_override[id(v)] = acfg
        self.o = Obj(ctx, M.EcoLogger, {})

    def run(self, name, *a):
        try: return "ok", call(self.it, self.o, name, *a)
        except PyExc as e: return "raise", e.val

    def sinks(self): return self.fhs + self.cons

    def at(self, what, level, before):
        """the level in force is that of the name, or as before when the name is none"""
        it, ctx = self.it, self.ctx
        want = before
        for n, l in LEVELS.items(): want = z3.If(level.z == it.term(n), l, want)
        lv = lambda s: it.z(s.st["level"]) if s.st["level"] is not None else z3.IntVal(0)
        r = lv(self.root)
        if self.root.st["level"] is None: ctx.oblige(what, False, "the root logger has no level"); return
        for s in self.sinks(): ctx.oblige(what, z3.If(lv(s) > r, lv(s), r) == want, repr(s))


def eco_setup(ctx):
    l = L(ctx); it = l.it
    how, v = l.run("setup")
    ctx.oblige("setup: does not fail", how == "ok", repr(v) + str(getattr(v, "fields", "")))
    if how != "ok": return
    ctx.oblige("setup: logs to the configured places", len(l.fhs) == (l.only != "console") and len(l.cons) == (l.only != "file"))
    ctx.oblige("setup: each place gets every record once", sorted(h.ident for h in l.root.st["handlers"]) == sorted(s.ident for s in l.sinks()))
    from ekosis.logs.otlp_formatter import OtlpFormatter
    for s in l.sinks(): ctx.oblige("setup: records are formatted as log records", isinstance(s.st["formatter"], Obj) and issubclass(s.st["formatter"].cls, OtlpFormatter))
    for f in l.fhs:
        ctx.oblige("setup: the file is buffered and rotated as configured", z3.And(it.z(f.st["made"]) == l.size, it.z(f.st["max"]) == l.max, it.z(f.st["count"]) == l.count))
        parts = lambda s: [it.term(p) for p in (s.pieces if getattr(s, "pieces", None) else [s])]
        a, b = parts(f.st["name"]), parts(it.concat([l.dir, "/", l.app, "-", l.inst, ".log"]))
        ctx.oblige("setup: the file is the instance's, in the log directory", len(a) == len(b) and z3.And(*[x == y for x, y in zip(a, b)]))
    l.at("setup: the configured level is in force", l.level, z3.IntVal(10))


def eco_run(ctx):
    l = L(ctx); it = l.it
    l.run("setup")
    if l.root.st["level"] is None: raise Unsupported("no level after setup")
    before = SInt(z3.IntVal(10))
    for n, x in LEVELS.items(): before = SInt(z3.If(l.level.z == it.term(n), x, before.z))
    lv = opaque(ctx, "new_level", str)
    how, v = l.run("set_level", lv)
    ctx.oblige("set_level: does not fail", how == "ok", repr(v))
    if how != "ok": return
    l.at("set_level: the level set is in force everywhere, an unknown one changes nothing", lv, it.z(before))
    n = ctx.fresh_int("new_size")
    how, v = l.run("set_buffer_size", SInt(n))
    ctx.oblige("set_buffer_size: does not fail", how == "ok", repr(v))
    for f in l.fhs: ctx.oblige("set_buffer_size: the size set is in force", it.z(f.st["size"]) == n if f.st["size"] is not None else False)
    for s in l.sinks(): s.set("flushed", 0)
    how, v = l.run("flush")
    ctx.oblige("flush: does not fail", how == "ok", repr(v))
    ctx.oblige("flush: everything is flushed", all(s.st["flushed"] >= 1 for s in l.sinks()))


def endpoint(which):
    def task(ctx):
        from ekosis.standard_endpoints import log_manager as M
        from . import errors as E
        it = C.interp(ctx)
        fn, _ = E.endpoint_fn(M.__name__, f"eco.log.{which}")
        class Eco(Ext):
            def m_set_level(self, it, v): ctx.event("log", what="level", v=v)
            def m_set_buffer_size(self, it, v): ctx.event("log", what="buffer", v=v)
        eco = Eco(ctx)
        it.models[M.EcoLogger] = lambda it: eco
        field = "level" if which == "level" else "size"
        val = opaque(ctx, "asked", str) if which == "level" else SInt(ctx.fresh_int("asked"))
        dto = type("Dto", (Ext,), {"g_" + field: lambda s, it: val})(ctx)
        m = len(ctx.trace)
        try: r = it.await_(it.call(fn, [dto], {}))
        except PyExc as e:
            ctx.oblige(f"eco.log.{which}: does not fail", False, repr(e.val)); return
        ev = [d for k, d in ctx.trace[m:] if k == "log"]
        ok = len(ev) == 1 and ev[0]["what"] == which
        ctx.oblige(f"eco.log.{which}: sets it once", ok, repr(ev))
        eq = lambda a: it.term(a) == val.z if which == "level" else it.z(a) == val.z
        if ok: ctx.oblige(f"eco.log.{which}: sets what was asked for", eq(ev[0]["v"]))
        ctx.oblige(f"eco.log.{which}: reports what was asked for", isinstance(r, Obj) and field in r.fields and eq(r.fields[field]))
    return task
