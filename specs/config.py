"""Contracts of configuration through the environment (C16).

The module is loaded once more under marker names for the application, the instance and the default directory;
every module constant built from a marker becomes a text around a symbolic name, so the functions are verified for
all applications and instances, over an arbitrary environment."""
import importlib.util, os, platform, sys, types
import z3
from dv.core import *
from dv.interp import Interp, MDict

ENV = z3.Function("environment", U, U)                 # NONE: not set
INTOK, INT = z3.Function("is_number", U, B), z3.Function("number_of", U, I)
STARTS, REPL = z3.Function("str_startswith1", U, U, B), z3.Function("str_replace3", U, U, U, U, U)
REST, CAT = z3.Function("after_prefix", U, U, U), z3.Function("prefixed", U, U, U)
LEN = z3.Function("str_len", U, I)
PARTS, PART = z3.Function("address_parts", U, I), z3.Function("address_part", U, I, U)
DIRN, BASEN, ISDIR = z3.Function("dirname", U, U), z3.Function("basename", U, U), z3.Function("isdir", U, B)
UPPER = z3.Function("str_upper0", U, U)
KEY, POS = z3.Function("env_name", I, U), z3.Function("env_position", U, I)
MARK = {"app": "qzappqz", "inst": "qzinstqz", "dir": "/qzdirqz"}
_mod = []


def load(app, inst, environ, config_file=None, console=False, fileonly=False):
    """A fresh copy of the configuration module, as a start of `app` as `inst` would make it."""
    from ekosis.configuration import argument_parser as ap
    import ekosis.configuration.config_models as real
    saved = sys.argv[:], ap.command_line_args, dict(os.environ)
    try:
        sys.argv[:] = [app + ".py"]
        ap.command_line_args = types.SimpleNamespace(instance=inst, config_file=config_file, log_console_only=console, log_file_only=fileonly)
        for k in [k for k in os.environ if k.startswith("ECOENV")]: del os.environ[k]
        os.environ.update(environ)
        spec = importlib.util.spec_from_file_location("ekosis.configuration.config_models_copy", real.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        sys.argv[:], ap.command_line_args = saved[:2]
        os.environ.clear(); os.environ.update(saved[2])


def marked():
    if not _mod:
        m = load(MARK["app"], MARK["inst"], {"ECOENV_DEFAULT_DIR": MARK["dir"]})
        sys.modules[m.__name__] = m
        _mod.append(m)
    return _mod[0]


class World:
    def __init__(self, ctx, names_of=False):
        self.ctx = ctx
        it = self.it = Interp(ctx)
        m = self.m = marked()
        A = ctx.assume
        self.app, self.inst, self.dir = (SVal(ctx.fresh_u(n), str) for n in ("application", "instance", "default_directory"))
        up = lambda v: SVal(UPPER(v.z), str)
        A(z3.And(*[v.z != NONE for v in (self.app, self.inst, self.dir)] + [truthy(self.dir.z)]))
        names = {MARK["app"]: self.app, MARK["inst"]: self.inst, MARK["app"].upper(): up(self.app), MARK["inst"].upper(): up(self.inst), MARK["dir"]: self.dir}
        A(z3.And(*[names[k].z != NONE for k in (MARK["app"].upper(), MARK["inst"].upper())]))
        self.APP, self.INST = names[MARK["app"].upper()], names[MARK["inst"].upper()]
        import re
        rx = re.compile("(" + "|".join(map(re.escape, names)) + ")")
        for k, v in vars(m).items():
            if isinstance(v, str) and rx.search(v) and not k.startswith("__"):
                it.globals_override[(m.__name__, k)] = it.concat([names.get(p, p) for p in rx.split(v) if p])
        # environment
        env = MDict(ctx, {})
        n = ctx.fresh_int("env_size")
        ctx.small.append(n)
        i, x, y = z3.Int("i!v"), z3.Const("x!v", U), z3.Const("y!v", U)
        A(n >= 0)
        if names_of:      # only where the names themselves are walked over
         A(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(POS(KEY(i)) == i, ENV(KEY(i)) != NONE, KEY(i) != NONE)), patterns=[KEY(i)]))
         A(z3.ForAll([x], z3.Implies(ENV(x) != NONE, z3.And(POS(x) >= 0, POS(x) < n, KEY(POS(x)) == x)), patterns=[POS(x)]))
        env.d, env.dom, env.val = None, (lambda k: z3.And(ENV(k) != NONE, POS(k) == POS(k)) if names_of else ENV(k) != NONE), (lambda k: SVal(ENV(k), str))
        env.order = MList(ctx, None, n, lambda i: SVal(KEY(i), str))
        it.value_override[id(os.environ)] = env
        it.models[os.getenv] = lambda it, k, default=None: it.call(it.getattr(env, "get"), [k, default], {})
        self.n = n
        # text
        if names_of:
         A(z3.ForAll([x, y], z3.Implies(STARTS(x, y), CAT(y, REST(x, y)) == x), patterns=[REST(x, y)]))
         A(z3.ForAll([x, y], z3.And(STARTS(CAT(y, x), y), REST(CAT(y, x), y) == x), patterns=[CAT(y, x)]))
        def strip(it, s, p):
            if ctx.branch(STARTS(s.z, it.term(p))): return SVal(REST(s.z, it.term(p)), str)
            return s
        def replace(it, s, old, new, count=-1):
            if new != "" or count != 1 or isinstance(count, SInt): raise Unsupported("replace")
            if not ctx.branch(STARTS(s.z, it.term(old))): raise Unsupported("replace of a text that is not a prefix")
            return SVal(REST(s.z, it.term(old)), str)
        def slice_(it, s, k):
            if k.stop is None and k.step is None and isinstance(k.start, SInt) and k.start.z.decl().name() == "str_len":
                p = k.start.z.arg(0)
                if ctx.branch(STARTS(s.z, p)): return SVal(REST(s.z, p), str)
            raise Unsupported("slice of a text")
        it.attr_models[(str, ".removeprefix")], it.attr_models[(str, ".replace")], it.attr_models[(str, "__slice__")] = strip, replace, slice_
        it.attr_models[(str, "__len__")] = lambda it, s: SInt(LEN(s.z))
        def int_(it, v, base=10):
            if base != 10: raise Unsupported("number base")
            if not ctx.branch(INTOK(v.z)): it.raise_py(ValueError, "invalid literal for int() with base 10")
            return SInt(INT(v.z))
        it.models[("int()", str)] = int_
        def split(it, s, sep=None, maxsplit=-1):
            if sep != ":" or maxsplit != -1: raise Unsupported("split")
            c = ctx.choose_n(3, "parts") + 1
            A(PARTS(s.z) >= 3 if c == 3 else PARTS(s.z) == c)
            return MList(ctx, [SVal(PART(s.z, i), str) for i in range(c)])
        it.attr_models[(str, ".split")] = split
        def fn(f):
            def g(it, v):
                t = f(it.term(v))
                A(t != NONE)
                return SVal(t, str)
            return g
        it.models[os.path.dirname], it.models[os.path.basename] = fn(DIRN), fn(BASEN)
        it.models[os.path.isdir] = lambda it, v: SBool(ISDIR(it.term(v)))
        it.models[platform.system] = lambda it: "Linux"

    def name(self, postfix, level):
        parts = ["ECOENV_" + postfix] + ["_", self.APP] * (level != "machine") + ["_", self.INST] * (level == "instance")
        return self.it.term(self.it.concat(parts))

    def chosen(self, postfix, instance_only=False):
        """(is it set at all, the value)"""
        levels = ["instance"] if instance_only else ["instance", "application", "machine"]
        vs = [ENV(self.name(postfix, l)) for l in levels]
        v = vs[-1]
        for x in vs[:-1][::-1]: v = z3.If(truthy(x), x, v)
        return z3.Or(*[truthy(x) for x in vs]), v


def run(w, f):
    try: return "ok", w.it.call(w.it.wrap(f), [], {})
    except PyExc as e: return "raise", e.val


def factory(cls, field):
    c = getattr(marked(), cls, None)
    if c is None or field not in c.model_fields: raise Unsupported(f"no {cls}.{field}")
    f = c.model_fields[field].default_factory
    if f is None: raise Unsupported(f"{cls}.{field} is not read from the environment when it is made")
    return f


NUMBERS = [("ConfigStatisticsKeeper", "gather_period", "STAT_GP", 300), ("ConfigStatisticsKeeper", "history_length", "STAT_HL", 12), ("ConfigLoggingFile", "buffer_size", "LOG_BUF_SIZE", 0),
           ("ConfigLoggingFile", "max_size_in_bytes", "LOG_MAX_SIZE", 10485760), ("ConfigLoggingFile", "max_files", "LOG_MAX_FILES", 10)]
TEXTS = [("ConfigLoggingFile", "directory", "LOG_DIR", "dir"), ("ConfigLogging", "level", "LOG_LEVEL", "info"), ("ConfigApplicationInstance", "lock_directory", "LOCK_DIR", "dir"), ("ConfigApplicationInstance", "buffer_directory", "BUFFER_DIR", None),
         ("ConfigApplicationInstanceDefaults", "lock_directory", "LOCK_DIR", "dir"), ("ConfigApplicationInstanceDefaults", "buffer_directory", "BUFFER_DIR", None)]


def number(cls, field, postfix, default):
    def task(ctx):
        w = World(ctx); it = w.it
        how, v = run(w, factory(cls, field))
        some, t = w.chosen(postfix)
        if how == "raise":
            ctx.oblige(f"{field}: fails only for a value that is not a number", z3.And(some, z3.Not(INTOK(t))), repr(v) + str(getattr(v, "fields", "")))
            return
        if isinstance(v, bool) or not isinstance(v, (int, SInt)): ctx.oblige(f"{field}: is a number", False, repr(v)); return
        ctx.oblige(f"{field}: a value that is not a number is reported", z3.Implies(some, INTOK(t)))
        ctx.oblige(f"{field}: is the most specific setting, else the default", it.z(v) == z3.If(some, INT(t), default))
    return task


def text(cls, field, postfix, default):
    def task(ctx):
        w = World(ctx); it = w.it
        how, v = run(w, factory(cls, field))
        ctx.oblige(f"{field}: does not fail", how == "ok", repr(v))
        if how != "ok": return
        some, t = w.chosen(postfix)
        d = w.dir.z if default == "dir" else it.term(default)
        ctx.oblige(f"{field}: is the most specific setting, else the default", it.term(v) == z3.If(some, t, d))
    return task


def default_dir(ctx):
    w = World(ctx); it = w.it
    f = getattr(w.m, "get_platform_default_dir", None)
    if f is None: raise Unsupported("no get_platform_default_dir")
    how, v = run(w, f)
    some, t = w.chosen("DEFAULT_DIR")
    ctx.oblige("default directory: does not fail", how == "ok", repr(v))
    if how == "ok": ctx.oblige("default directory: is the most specific setting, else /tmp", it.term(v) == z3.If(some, t, it.term("/tmp")))


def file_path(ctx):
    w = World(ctx); it = w.it
    how, v = run(w, factory("ConfigLoggingFile", "base_file_path"))
    ctx.oblige("log file: does not fail", how == "ok", repr(v))
    if how != "ok": return
    some, t = w.chosen("LOG_DIR")
    d = SVal(t, str) if ctx.branch(some) else w.dir
    parts = lambda s: [it.term(p) for p in (s.pieces if getattr(s, "pieces", None) else [s])]
    got, want = parts(v), parts(it.concat([d, "/", w.app, "-", w.inst, ".log"]))
    ctx.oblige("log file: is in the log directory and named after application and instance", len(got) == len(want) and z3.And(*[a == b for a, b in zip(got, want)]), repr(got))


def address(field, postfix):
    def task(ctx):
        w = World(ctx); it = w.it
        how, v = run(w, factory("ConfigApplicationInstance", field))
        some, t = w.chosen(postfix, True)
        h, p = PART(t, 0), PART(t, 1)
        two = PARTS(t) == 2
        if how == "raise":
            ctx.oblige(f"{field}: fails only for an address that is not host:port with a numeric port", z3.And(some, z3.Or(z3.Not(two), z3.Not(INTOK(p)))), repr(v) + str(getattr(v, "fields", "")))
            return
        if v is None:
            ctx.oblige(f"{field}: there is none only when it is not set for this instance (or has no host or no port)", z3.Or(z3.Not(some), z3.And(two, z3.Or(z3.Not(truthy(h)), z3.Not(truthy(p))))))
            return
        ok = isinstance(v, Obj) and {"host", "port"} <= set(v.fields)
        ctx.oblige(f"{field}: has host and port", ok, repr(v))
        if not ok: return
        ctx.oblige(f"{field}: is set for this instance and well formed", z3.And(some, two, INTOK(p)))
        ctx.oblige(f"{field}: host and port are those of the instance's setting", z3.And(it.term(v.fields["host"]) == h, it.z(v.fields["port"]) == INT(p)))
    return task


def uds(ctx):
    w = World(ctx); it = w.it
    how, v = run(w, factory("ConfigApplicationInstance", "uds"))
    ctx.oblige("uds: does not fail", how == "ok", repr(v))
    if how != "ok": return
    some, t = w.chosen("UDS", True)
    d, b = DIRN(t), BASEN(t)
    usable = z3.And(truthy(d), truthy(b), ISDIR(d))
    if v is None:
        ctx.oblige("uds: there is none only when it is not set for this instance or does not name a file in a directory", z3.Or(z3.Not(some), z3.Not(usable)))
        return
    ok = isinstance(v, Obj) and {"directory", "socket_file_name"} <= set(v.fields)
    ctx.oblige("uds: has directory and file name", ok, repr(v))
    if not ok: return
    ctx.oblige("uds: is set for this instance", z3.And(some, usable))
    ctx.oblige("uds: the directory is that of the instance's setting", it.term(v.fields["directory"]) == d)
    default = it.term(it.concat([w.app, "_", w.inst, ".uds.sock"]))
    ctx.oblige("uds: the file name is that of the instance's setting, or made from application and instance", it.term(v.fields["socket_file_name"]) == z3.If(b == it.term("DEFAULT"), default, b))


def extra(ctx):
    w = World(ctx, True); it = w.it
    how, v = run(w, factory("ConfigApplicationInstance", "extra"))
    ctx.oblige("extra: does not fail", how == "ok", repr(v))
    if how != "ok": return
    if not isinstance(v, MDict): raise Unsupported("extra settings are not a dict")
    x = ctx.fresh_u("setting")
    ctx.assume(x != NONE)
    M = it.term("ECOENV_EXTRA_")
    A_ = it.term(it.concat(["ECOENV_EXTRA_", w.APP, "_"]))
    I_ = it.term(it.concat(["ECOENV_EXTRA_", w.APP, "_", w.INST, "_"]))
    # a longer prefix starts with the shorter one
    k = z3.Const("k!x", U)
    ctx.assume(z3.ForAll([k], z3.And(z3.Implies(STARTS(k, I_), STARTS(k, A_)), z3.Implies(STARTS(k, A_), STARTS(k, M))), patterns=[STARTS(k, I_)]))
    ctx.assume(z3.ForAll([k], z3.Implies(STARTS(k, A_), STARTS(k, M)), patterns=[STARTS(k, A_)]))
    ki, ka, km = CAT(I_, x), CAT(A_, x), CAT(M, x)
    for t in (ki, ka, km): ctx.assume(z3.And(POS(t) == POS(t), t != NONE))
    si = ENV(ki) != NONE
    sa = z3.And(ENV(ka) != NONE, z3.Not(STARTS(ka, I_)))
    sm = z3.And(ENV(km) != NONE, z3.Not(STARTS(km, A_)))
    if not v.symbolic:
        from dv.methods import dict_symbolize
        dict_symbolize(it, v)
    ctx.oblige("extra: a setting is there exactly when it is set at some level", v.dom(x) == z3.simplify(z3.Or(si, sa, sm)))
    try: val = it.term(v.val(x))
    except Exception as e: raise Unsupported("value of an extra setting")
    ctx.oblige("extra: a setting has its most specific value", z3.simplify(z3.Implies(z3.Or(si, sa, sm), val == z3.If(si, ENV(ki), z3.If(sa, ENV(ka), ENV(km))))))
