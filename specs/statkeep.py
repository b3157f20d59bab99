"""Contracts of the statistics keeper (C15).

The current document is a tree; a position in it is reached from the root by the segments of a path.  Every
position is absent, a group (dict), a number, or another value.  The keeper's loops over the segments of a path
are proved for paths of any length from closed forms of the cursor and of the tree."""
import asyncio, copy, statistics, time
import z3
from dv.core import *
from dv import methods
from dv.interp import BoundMethod, MDict, ModelFn
from dv.loops import LoopSpec, Closed
from . import common as C
from .common import call, opaque

ROOT = z3.Const("root!", U)
CH = z3.Function("child", U, U, U)
PAR, LASTSEG = z3.Function("parent", U, U), z3.Function("last_segment", U, U)
D = z3.Function("depth", U, I)
UNDER = z3.Function("under", U, U, B)
NSEG, SEG = z3.Function("segments", U, I), z3.Function("segment", U, I, U)


class Pos(dict):
    """A group of the current document."""


class Other:
    """An entry that is neither a group nor a whole number (texts, times, durations)."""


class FieldFn:
    def __init__(self, get): self.get = get
    def put(self, x, v):
        g = self.get
        return FieldFn(lambda y: z3.If(y == x, v, g(y)))


class IntFn(FieldFn):
    def put(self, x, v):
        g = self.get
        return IntFn(lambda y: z3.If(y == x, v, g(y)))
    @classmethod
    def fresh_(cls, it):
        f = it.ctx.fresh_fn("some_int", U, I)
        return cls(lambda x: f(x))


class ValFn(FieldFn):
    def put(self, x, v):
        g = self.get
        return ValFn(lambda y: z3.If(y == x, v, g(y)))
    @classmethod
    def fresh_(cls, it):
        f = it.ctx.fresh_fn("some_val", U, U)
        return cls(lambda x: f(x))


class Path:
    """The segments of a text and the positions on the way down."""
    def __init__(self, it, term, n, get):
        self.t, self.n, self.get = term, n, get
        f = z3.Function("on_path", U, I, U)
        self.N = lambda j: f(term, j)
        A = it.ctx.assume
        j = z3.Int("j!p")
        A(z3.And(n >= 1, self.N(z3.IntVal(0)) == ROOT))
        A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), D(f(term, j)) == j), patterns=[f(term, j)]))
        self.it = it
        self.step(z3.simplify(n - 1)); self.step(z3.IntVal(0))
    def step(self, k):
        """N(k+1) is the child of N(k) under segment k."""
        self.it.ctx.assume(z3.Implies(z3.And(k >= 0, k < self.n), self.N(z3.simplify(k + 1)) == CH(self.N(k), self.it.term(self.get(k)))))
    @property
    def leaf(self): return self.N(self.n)
    def prefix(self, q): return z3.And(D(q) >= 1, D(q) < self.n, self.N(D(q)) == q)


class Tree(Ext):
    def __init__(self, ctx, axioms=True):
        super().__init__(ctx)
        k, i, o = z3.Function("kind", U, I), z3.Function("number", U, I), z3.Function("other", U, U)
        self.st.update(kind=IntFn(lambda x: k(x)), ival=IntFn(lambda x: i(x)), oval=ValFn(lambda x: o(x)))
        p, s, x = z3.Const("p!t", U), z3.Const("s!t", U), z3.Const("x!t", U)
        self.first = self.snap()
        if not axioms: return
        A = ctx.assume
        A(z3.ForAll([p, s], z3.And(PAR(CH(p, s)) == p, LASTSEG(CH(p, s)) == s, D(CH(p, s)) == D(p) + 1, CH(p, s) != ROOT), patterns=[CH(p, s)]))
        A(z3.ForAll([x], z3.And(k(x) >= 0, k(x) <= 3), patterns=[k(x)]))
        A(z3.And(D(ROOT) == 0, k(ROOT) == 1))
    def snap(self): return {n: self.st[n].get for n in ("kind", "ival", "oval")}
    def kind(self, p): return self.st["kind"].get(p)
    def ready(self, path):
        """Paths in use do not collide: what lies on the way is a group or absent, the end is no group."""
        f, j, i = self.first["kind"], z3.Int("j!r"), z3.Int("i!r")
        N = path.N
        A = self.ctx.assume
        A(z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < path.n), f(N(j)) <= 1), patterns=[N(j)]))
        A(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= path.n, f(N(i)) == 0), f(N(j)) == 0), patterns=[z3.MultiPattern(N(i), N(j))]))
        A(f(path.leaf) != 1)
    def content(self, it, p):
        k = self.kind(p)
        if self.ctx.branch(k == 0): return None
        if self.ctx.branch(k == 1): return SVal(p, Pos)
        if self.ctx.branch(k == 2): return SInt(z3.simplify(self.st["ival"].get(p)))
        return SVal(self.st["oval"].get(p), Other)
    def put(self, it, p, v):
        if isinstance(v, MDict) and not v.symbolic and not v.d:
            k = self.st["kind"].get
            x, s = z3.Const("x!u", U), z3.Const("s!u", U)
            self.ctx.assume(z3.And(z3.Not(UNDER(ROOT, p)), z3.Not(UNDER(p, p))))
            self.ctx.assume(z3.ForAll([x, s], UNDER(CH(x, s), p) == z3.Or(x == p, UNDER(x, p)), patterns=[UNDER(CH(x, s), p)]))
            self.set("kind", IntFn(lambda q: z3.If(q == p, 1, z3.If(UNDER(q, p), 0, k(q)))))
        elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
            self.set("kind", self.st["kind"].put(p, z3.IntVal(2)))
            self.set("ival", self.st["ival"].put(p, it.z(v)))
        elif isinstance(v, (SVal, str, float)) and not (isinstance(v, SVal) and v.cls is Pos):
            self.set("kind", self.st["kind"].put(p, z3.IntVal(3)))
            self.set("oval", self.st["oval"].put(p, it.term(v)))
        else: raise Unsupported(f"a document entry of another kind: {v!r}")


class Durs(Ext):
    """Durations recorded per endpoint: a dict of lists."""
    pycls = dict
    def __init__(self, ctx):
        d, n, e, k, ix = z3.Function("tracked", U, B), z3.Function("calls", U, I), z3.Function("duration", U, I, U), z3.Function("tracked_key", I, U), z3.Function("tracked_idx", U, I)
        m = ctx.fresh_int("endpoints")
        ctx.small.append(m)
        x, i = z3.Const("x!d", U), z3.Int("i!d")
        ctx.assume(m >= 0)
        ctx.assume(z3.ForAll([x], z3.And(n(x) >= 0, z3.Implies(d(x), z3.And(ix(x) >= 0, ix(x) < m, k(ix(x)) == x))), patterns=[d(x)]))
        ctx.assume(z3.ForAll([x], n(x) >= 0, patterns=[n(x)]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(d(k(i)), ix(k(i)) == i)), patterns=[k(i)]))
        super().__init__(ctx, dom=FieldFn(lambda x: d(x)), n=IntFn(lambda x: n(x)), el=lambda x, i: e(x, i))
        self.first = dict(self.st)
        self.k, self.m, self.ix = k, m, ix
        self.keys = MList(ctx, None, m, lambda i: SVal(k(i), str))
    def contains_(self, it, k): return SBool(self.st["dom"].get(it.term(k)))
    def m_keys(self, it): return MList(self.ctx, None, self.m, self.keys.get)
    def iter_(self, it): return self.m_keys(it)
    def m_items(self, it): return MList(self.ctx, None, self.m, lambda i: (self.keys.get(i), Durations(self.ctx, self, self.k(i))))
    def m_values(self, it): return MList(self.ctx, None, self.m, lambda i: Durations(self.ctx, self, self.k(i)))
    def len_(self, it): return SInt(self.m)
    def getitem_(self, it, k):
        if not self.ctx.branch(self.st["dom"].get(it.term(k))): it.raise_py(KeyError, k)
        return Durations(self.ctx, self, it.term(k))
    def m_get(self, it, k, default=None):
        if not self.ctx.branch(self.st["dom"].get(it.term(k))): return default
        return Durations(self.ctx, self, it.term(k))
    def setitem_(self, it, k, v):
        if not (isinstance(v, MList) and not v.symbolic and not v.items): raise Unsupported("durations set to something else than an empty list")
        x = it.term(k)
        self.set("dom", self.st["dom"].put(x, z3.BoolVal(True)))
        self.set("n", self.st["n"].put(x, z3.IntVal(0)))


class Durations(Ext):
    pycls = list
    def __init__(self, ctx, d, x): super().__init__(ctx, sorted=False); self.d, self.x = d, x
    def terms_(self): return [self.x]
    def subst_(self, it, pairs): return Durations(self.ctx, self.d, z3.substitute(self.x, *pairs))
    def ite_(self, it, c, o): return Durations(self.ctx, self.d, z3.If(c, self.x, o.x))
    def n(self): return self.d.st["n"].get(self.x)
    def len_(self, it): return SInt(self.n())
    def truth(self, it): return self.ctx.branch(self.n() > 0)
    def m_append(self, it, v):
        x, n, e, t = self.x, self.n(), self.d.st["el"], it.term(v)
        self.d.set("el", lambda y, i: z3.If(z3.And(y == x, i == n), t, e(y, i)))
        self.d.set("n", self.d.st["n"].put(x, z3.simplify(n + 1)))
    def m_clear(self, it): self.d.set("n", self.d.st["n"].put(self.x, z3.IntVal(0)))
    def getitem_(self, it, k):
        if k not in (0, -1): raise Unsupported("element of the durations")
        if not self.ctx.branch(self.n() > 0): it.raise_py(IndexError, "list index out of range")
        return SVal(self.d.st["el"](self.x, z3.IntVal(0) if k == 0 else self.n() - 1), float)


QUANT = z3.Function("quantile", U, I, U)


class W:
    def __init__(self, ctx, durs=True):
        from ekosis.state_keepers import statistics_keeper as M
        self.ctx, self.M, self.S = ctx, M, M.StatisticsKeeper
        it = self.it = C.interp(ctx)
        it.opaque_arith = True
        self.last = None
        self.install()
        o = self.o = Obj(ctx, self.S, {})
        # which container holds what, found out on an empty keeper
        names = [n for n, v in vars(self.S).items() if isinstance(v, (dict, list)) and not n.startswith("__")]
        for n in names: o.fields[n] = MDict(ctx, {}) if isinstance(vars(self.S)[n], dict) else MList(ctx, [])
        f = it.lookup(self.S, "__init__")
        if f is not None: call(it, o, "__init__")
        boxes = lambda: {n: (len(v.d) if isinstance(v, MDict) else len(v.items)) for n, v in o.fields.items() if isinstance(v, (MDict, MList))}
        def grew(*a):
            b = boxes(); call(it, o, *a); c = boxes()
            return [n for n in c if c[n] != b.get(n, 0)]
        cur = grew("set_statistic_value", "zzq", 1)
        q = grew("add_persisted_queue", "zzr", opaque(ctx, "queue"))
        d = [n for n in grew("track_endpoint_data", "zzs") if n not in cur]
        h = [n for n, v in o.fields.items() if isinstance(v, MList)]
        if any(len(x) != 1 for x in (cur, q, d, h)): raise Unsupported("the keeper has other containers than the contract")
        self.cur, self.q, self.d, self.h = cur[0], q[0], d[0], h[0]
        for n in boxes(): o.fields[n] = MList(ctx, []) if n == self.h else MDict(ctx, {})
        self.tree = Tree(ctx, durs)
        o.fields[self.cur] = SVal(ROOT, Pos)
        if durs:
            self.durs = Durs(ctx)
            o.fields[self.d] = self.durs
        it.loop_spec = LoopSpec(closed=self.closed)

    # ---- texts as paths
    def split(self, it, s, sep=None, maxsplit=-1):
        if sep != "." or maxsplit != -1: raise Unsupported("split in another way")
        return MList(self.ctx, None, *self.segments(s))
    def segments(self, s):
        p = self.path(s)
        return p.n, p.get
    def path(self, s):
        it = self.it
        t = it.term(s)
        if isinstance(s, str):
            ps = s.split(".")
            self.last = p = Path(it, t, z3.IntVal(len(ps)), lambda i: pick(it, ps, i))
            for i in range(len(ps)): p.step(z3.IntVal(i))
        else:
            segs, joined = [], False
            for x in (getattr(s, "pieces", None) or [s]):
                if isinstance(x, str):
                    ps = x.split(".")
                    if joined and ps[0] != "": raise Unsupported("a segment put together")
                    ps = ps[1:] if joined else ps
                    if x and ps and ps[-1] == "": ps, joined = ps[:-1], False
                    elif ps: joined = True
                    segs += ps
                else:
                    if joined: raise Unsupported("a segment put together")
                    segs.append(it.term(x)); joined = True
            sym = [x for x in segs if not isinstance(x, str)]
            if len(sym) != 1: raise Unsupported("a path of several texts")
            a = next(i for i, x in enumerate(segs) if x is sym[0])
            pre, post, m = segs[:a], segs[a + 1:], NSEG(sym[0])
            self.ctx.assume(m >= 1)
            n = z3.simplify(m + len(pre) + len(post))
            def get(i):
                r = SEG(sym[0], i - len(pre))
                for j, x in enumerate(pre): r = z3.If(i == j, it.term(x), r)
                for j, x in enumerate(post): r = z3.If(i == m + len(pre) + j, it.term(x), r)
                return SVal(z3.simplify(r), str)
            self.last = p = Path(it, t, n, get)
            for j in range(len(pre)): p.step(z3.IntVal(j))
            for j in range(len(post) + 1): p.step(z3.simplify(n - 1 - j))
        return p

    def install(self):
        it, w = self.it, self
        am = it.attr_models
        am[(str, ".split")] = lambda it, s, *a, **k: w.split(it, s, *a, **k)
        def get(it, p):
            def m(it, k, default=None):
                q = CH(p.z, it.term(k))
                r = w.tree.content(it, q)
                return default if r is None else r
            return ModelFn(m, "dict.get")
        def setdefault(it, p):
            def m(it, k, default=None):
                q = CH(p.z, it.term(k))
                if not (isinstance(default, MDict) and not default.symbolic and not default.d): raise Unsupported("setdefault of something else than an empty group")
                if w.ctx.branch(w.tree.kind(q) >= 2): return w.tree.content(it, q)
                w.tree.set("kind", IntFn(lambda y, g=w.tree.st["kind"].get: z3.If(z3.And(y == q, g(y) == 0), 1, g(y))))
                return SVal(q, Pos)
            return ModelFn(m, "dict.setdefault")
        am[(Pos, "get")], am[(Pos, "setdefault")] = get, setdefault
        def item(it, p, k):
            r = w.tree.content(it, CH(p.z, it.term(k)))
            if r is None: it.raise_py(KeyError, k)
            return r
        am[(Pos, "__getitem__")] = item
        am[(Pos, "__setitem__")] = lambda it, p, k, v: w.tree.put(it, CH(p.z, it.term(k)), v)
        am[(Pos, "__contains__")] = lambda it, p, k: SBool(w.tree.kind(CH(p.z, it.term(k))) != 0)
        am[(Pos, "items")] = lambda it, p: ModelFn(lambda it: w.children(it, p, True), "dict.items")
        am[(Pos, "keys")] = lambda it, p: ModelFn(lambda it: w.children(it, p, False), "dict.keys")
        it.opaque_iter = lambda v: w.children(it, v, False)
        it.models[sorted] = lambda it, l, *a, **k: l if isinstance(l, Durations) and not a and not k else methods.builtin(it, sorted, [l, *a], k)
        def quantiles(it, l, n=4, method="exclusive"):
            if not isinstance(l, Durations) or n != 100 or method != "exclusive": raise Unsupported("quantiles of something else")
            if not w.ctx.branch(l.n() >= 2): it.raise_py(statistics.StatisticsError, "must have at least two data points")
            return MList(w.ctx, None, z3.IntVal(99), lambda i: SVal(QUANT(l.x, i), float))
        it.models[statistics.quantiles] = quantiles
        it.models[time.time] = lambda it: SVal(w.ctx.fresh_u("time"), float)
    def children(self, it, p, pairs): raise Unsupported("iteration over a group")

    # ---- closed forms of the loops over a path
    def closed(self, it, l, k, outs):
        w, path, tree = self, self.last, self.tree
        v = l.read()
        if path is None: return None
        moved = any(("ext", id(tree), "kind") in o.locs for o in outs)
        g0 = tree.st["kind"].get
        if l.kind == "dict" and isinstance(v, SVal) and v.cls is Pos:
            if not it.ctx.prove_quick(v.z == ROOT): return None
            def at(K):
                path.step(z3.simplify(K)); path.step(z3.simplify(K - 1))
                return SVal(path.N(K), Pos) if moved else w.node(it, path.N(K))
            def same(it, a, K):
                path.step(z3.simplify(K - 1))
                q = path.N(K)
                if a is None: return g0(q) == 0
                if isinstance(a, SVal) and a.cls is Pos: return a.z == q if moved else z3.And(a.z == q, g0(q) == 1)
                if isinstance(a, SInt) and not moved: return z3.And(g0(q) == 2, a.z == tree.st["ival"].get(q))
                if isinstance(a, SVal) and not moved: return z3.And(g0(q) == 3, a.z == tree.st["oval"].get(q))
                return z3.BoolVal(False)
            return Closed(at, same)
        if l.kind == "ext" and l.obj is tree and l.name == "kind":
            at = lambda K: IntFn(lambda q: z3.If(z3.And(D(q) >= 1, D(q) <= K, path.N(D(q)) == q, g0(q) == 0), 1, g0(q)))
            def same(it, a, K):
                y = it.ctx.fresh_u("y")
                path.step(z3.simplify(K - 1))
                return a.get(y) == at(K).get(y)
            return Closed(at, same)
        return None
    def node(self, it, q): return self.tree.content(it, q)

    def run(self, name, *a, **k):
        try: return "ok", call(self.it, self.o, name, *a, **k)
        except PyExc as e: return "raise", e.val

    # ---- postconditions
    def only(self, what, path, kind, val):
        """Exactly the entry at the path's end changed: it now is the number `val`; groups on the way were made."""
        ctx, it, t = self.ctx, self.it, self.tree
        ctx.oblige(what + ": the entry is a number", t.kind(path.leaf) == kind)
        ctx.oblige(what + ": the entry has its value", t.st["ival"].get(path.leaf) == val)
        y = ctx.fresh_u("elsewhere")
        k0 = t.first["kind"]
        ctx.assume(y != path.leaf)
        ctx.oblige(what + ": groups on the way are groups", z3.Implies(path.prefix(y), t.kind(y) == 1))
        ctx.oblige(what + ": nothing else changes", z3.And(z3.Implies(z3.Not(path.prefix(y)), t.kind(y) == k0(y)), z3.Implies(k0(y) == 2, t.st["ival"].get(y) == t.first["ival"](y)), z3.Implies(k0(y) == 3, t.st["oval"].get(y) == t.first["oval"](y))))
        cur = self.o.fields.get(self.cur)
        ctx.oblige(what + ": in the same document", isinstance(cur, SVal) and cur.z == ROOT)
    def still(self, what, but=()):
        o = self.o
        if "d" not in but:
            x = self.ctx.fresh_u("endpoint"); i = self.ctx.fresh_int("call")
            d = self.durs
            self.ctx.oblige(what + ": recorded durations stay", z3.BoolVal(o.fields.get(self.d) is d) if o.fields.get(self.d) is not d else z3.And(d.st["dom"].get(x) == d.first["dom"].get(x), d.st["n"].get(x) == d.first["n"].get(x), d.st["el"](x, i) == d.first["el"](x, i)))
        h = o.fields.get(self.h)
        if "h" not in but: self.ctx.oblige(what + ": the history stays", isinstance(h, MList) and not h.symbolic and not h.items)


def pick(it, ps, i):
    i = z3.simplify(i)
    if z3.is_int_value(i) and 0 <= i.as_long() < len(ps): return ps[i.as_long()]
    r = it.term(ps[-1])
    for j, x in enumerate(ps[:-1]): r = z3.If(i == j, it.term(x), r)
    return SVal(r, str)


def set_value(ctx):
    w = W(ctx)
    k = opaque(ctx, "statistic", str)
    p = w.path(k); w.tree.ready(p)
    v = ctx.fresh_int("value")
    how, r = w.run("set_statistic_value", k, SInt(v))
    ctx.oblige("set: does not fail", how == "ok", repr(r) + str(getattr(r, "fields", "")))
    if how == "ok": w.only("set", p, 2, v); w.still("set")


def add(name, sign, given):
    def task(ctx):
        w = W(ctx)
        k = opaque(ctx, "statistic", str)
        p = w.path(k); w.tree.ready(p)
        ctx.assume(w.tree.kind(p.leaf) != 3)
        old = z3.If(w.tree.kind(p.leaf) == 2, w.tree.st["ival"].get(p.leaf), 0)
        v = ctx.fresh_int("value") if given else z3.IntVal(1)
        how, r = w.run(name, k, *([SInt(v)] if given else []))
        ctx.oblige(f"{name}: does not fail", how == "ok", repr(r) + str(getattr(r, "fields", "")))
        if how == "ok": w.only(name, p, 2, z3.simplify(old + sign * v)); w.still(name)
    return task


def call_count(it, w, key):
    p = w.path(it.concat(["endpoint_data.", key, ".call_count"]))
    w.tree.ready(p)
    w.ctx.assume(w.tree.kind(p.leaf) != 3)
    return p


def record(ctx):
    w = W(ctx); it = w.it
    k = opaque(ctx, "route", str)
    p = call_count(it, w, k)
    d, x = w.durs, k.z
    ctx.assume(z3.And(d.st["dom"].get(x), w.tree.kind(p.leaf) == 2))
    old, n, el = w.tree.st["ival"].get(p.leaf), d.st["n"].get(x), d.st["el"]
    t = opaque(ctx, "duration_of_call", float)
    how, r = w.run("add_endpoint_stats", k, t)
    ctx.oblige("call: does not fail", how == "ok", repr(r) + str(getattr(r, "fields", "")))
    if how != "ok": return
    w.only("call", p, 2, z3.simplify(old + 1)); w.still("call", "d")
    y, i = ctx.fresh_u("endpoint"), ctx.fresh_int("call")
    ctx.oblige("call: its duration is recorded once", z3.And(d.st["n"].get(x) == n + 1, d.st["el"](x, n) == t.z))
    ctx.oblige("call: no other duration changes", z3.And(d.st["dom"].get(y) == d.first["dom"].get(y), z3.Implies(y != x, d.st["n"].get(y) == d.first["n"].get(y)), z3.Implies(z3.Or(y != x, i != n), d.st["el"](y, i) == d.first["el"](y, i))))


def track(ctx):
    w = W(ctx); it = w.it
    k = opaque(ctx, "route", str)
    p = call_count(it, w, k)
    d, x = w.durs, k.z
    ctx.assume(z3.Not(d.st["dom"].get(x)))
    old = z3.If(w.tree.kind(p.leaf) == 2, w.tree.st["ival"].get(p.leaf), 0)
    how, r = w.run("track_endpoint_data", k)
    ctx.oblige("track: does not fail", how == "ok", repr(r) + str(getattr(r, "fields", "")))
    if how != "ok": return
    w.only("track", p, 2, old); w.still("track", "d")
    y, i = ctx.fresh_u("endpoint"), ctx.fresh_int("call")
    ctx.oblige("track: the endpoint has no recorded call", z3.And(d.st["dom"].get(x), d.st["n"].get(x) == 0))
    ctx.oblige("track: other endpoints stay", z3.Implies(y != x, z3.And(d.st["dom"].get(y) == d.first["dom"].get(y), d.st["n"].get(y) == d.first["n"].get(y), d.st["el"](y, i) == d.first["el"](y, i))))


def percentiles(ctx):
    w = W(ctx); it, d = w.it, w.durs
    r = None
    try: r = call(it, w.o, "get_endpoint_percentiles")
    except PyExc as e: ctx.oblige("percentiles: does not fail", False, repr(e.val)); return
    if not isinstance(r, MDict): raise Unsupported("percentiles are not a dict")
    i = ctx.fresh_int("endpoint")
    ctx.assume(z3.And(i >= 0, i < d.m))
    k = SVal(d.k(i), str)
    has = methods.dict_contains(it, r, k)
    ctx.oblige("percentiles: every endpoint has its own", has if isinstance(has, bool) else has.z)
    y = ctx.fresh_u("other")
    ctx.assume(z3.Not(d.st["dom"].get(y)))
    other = methods.dict_contains(it, r, SVal(y, str))
    ctx.oblige("percentiles: nothing but endpoints", not other if isinstance(other, bool) else z3.Not(other.z))
    n, e0 = d.st["n"].get(k.z), d.st["el"](k.z, z3.IntVal(0))
    v = methods.getitem(it, r, k)
    for j, what, q in ((0, "p95", 94), (1, "p99", 98)):
        x = it.term(methods.getitem(it, v, j))
        want = z3.If(n >= 2, QUANT(k.z, z3.IntVal(q)), z3.If(n == 1, e0, it.term(-1.0)))
        ctx.oblige(f"percentiles: {what} is that of the recorded calls, -1 without calls", x == want)
    w.still("percentiles")


P95, P99, SIZE = z3.Function("p95_of", U, U), z3.Function("p99_of", U, U), z3.Function("queue_size", I, I)


class Queue(Ext):
    def m_size(self, it): return SInt(SIZE(self.st["i"]))


def updated(fn):
    """The current document is brought up to date: exactly time stamps, settings, percentiles and queue sizes."""
    def task(ctx):
        w = W(ctx); it, t, d = w.it, w.tree, w.durs
        it.contracts[f"{w.M.__name__}.StatisticsKeeper.get_endpoint_percentiles"] = lambda it, self_: Coro(lambda: MDict(ctx, None, lambda x: d.st["dom"].get(x), lambda x: (SVal(P95(x), float), SVal(P99(x), float)), d.keys), "percentiles")
        # contract of set_statistic_value, proved for every path
        def setv(it, self_, k, v):
            p = w.path(k)
            kd = t.st["kind"].get
            made = ctx.fresh_fn("made", U, B)
            t.set("kind", IntFn(lambda q: z3.If(z3.And(kd(q) == 0, made(q)), 1, kd(q))))
            t.put(it, p.leaf, v)
            ctx.event("setv", path=p)
        it.contracts[f"{w.M.__name__}.StatisticsKeeper.set_statistic_value"] = setv
        m, QK, QI = ctx.fresh_int("queues"), z3.Function("queue_key", I, U), z3.Function("queue_idx", U, I)
        ctx.assume(m >= 0)
        i = z3.Int("i!q")
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), QI(QK(i)) == i), patterns=[QK(i)]))
        keys = MList(ctx, None, m, lambda i: SVal(QK(i), str))
        w.o.fields[w.q] = MDict(ctx, None, lambda x: z3.And(QI(x) >= 0, QI(x) < m, QK(QI(x)) == x), lambda x: Queue(ctx, i=QI(x)), keys)
        app, inst, per, start = opaque(ctx, "app_name", str), opaque(ctx, "app_instance", str), ctx.fresh_int("gather_period"), opaque(ctx, "start_time", float)
        from ekosis.configuration.config_models import AppConfiguration
        cfg = type("Cfg", (Ext,), {"g_name": lambda s, it: app, "g_instance": lambda s, it: inst})(ctx)
        for v in vars(w.S).values():
            if isinstance(v, AppConfiguration): it.value_override[id(v)] = cfg
        it.models[AppConfiguration] = lambda it, *a, **k: cfg
        call(it, w.o, "set_gather_period", SInt(per))
        ends = {"timestamp", "uptime", "gather_period"}
        # an arbitrary endpoint, queue, and other entry
        e, q, y = ctx.fresh_int("endpoint"), ctx.fresh_int("queue"), ctx.fresh_u("entry")
        ctx.assume(z3.And(e >= 0, e < d.m, q >= 0, q < m))
        pe = [w.path(it.concat(["endpoint_data.", SVal(d.k(e), str), x])) for x in (".p95", ".p99")]
        pq = w.path(SVal(QK(q), str))
        # different texts are different positions; percentiles and sizes lie outside the top-level entries
        top = [CH(ROOT, it.term(n)) for n in ("timestamp", "uptime", "gather_period", "application")]
        LEAFIDX = z3.Function("leaf_text", U, U)
        fixed = [CH(CH(ROOT, it.term("application")), it.term(n)) for n in ("name", "instance")]
        text = lambda p: ctx.assume(z3.And(LEAFIDX(p.leaf) == p.t, *[p.leaf != x for x in top + fixed], *[z3.Not(UNDER(p.leaf, top[3])), z3.Not(UNDER(top[3], p.leaf))]))
        written = ctx.run.__dict__.setdefault("written_by_loops", set())   # over all paths: loops proved before are not run again
        class_of = z3.Function("text_kind", U, I)
        for p in pe + [pq]: text(p)
        for p, c in ((pe[0], 1), (pe[1], 2), (pq, 3)): ctx.assume(class_of(p.t) == c)
        key_of_text = z3.Function("key_of_text", U, U)
        for p in pe: ctx.assume(key_of_text(p.t) == d.k(e))
        # the other entry is none of those written
        ctx.assume(z3.And(y != ROOT, *[y != x for x in top + fixed], z3.Not(UNDER(y, top[3])), class_of(LEAFIDX(y)) == 0))
        ctx.assume(z3.Or(t.kind(y) == 2, t.kind(y) == 3))
        orig = w.path
        def path(s):
            """texts written by the loops: percentiles of the loop's endpoint, sizes of the loop's queue"""
            p = orig(s)
            ps = getattr(s, "pieces", None)
            if ps and len(ps) == 3 and ps[0] == "endpoint_data." and ps[2] in (".p95", ".p99"):
                ctx.assume(z3.And(class_of(p.t) == (1 if ps[2] == ".p95" else 2), key_of_text(p.t) == it.term(ps[1])))
                written.add("endpoint")
            elif z3.is_app(it.term(s)) and it.term(s).decl().eq(QK):
                ctx.assume(class_of(p.t) == 3)
                written.add("queue")
            elif ps or not isinstance(s, str): raise Unsupported("a text of another form is written")
            if not isinstance(s, str): text(p)
            return p
        w.path = path
        k0, i0, o0 = (t.st[n].get for n in ("kind", "ival", "oval"))
        y_same = lambda it, k, v, l: (z3.And(v.get(y) == {"kind": k0, "ival": i0, "oval": o0}[l.name](y))) if l.kind == "ext" and l.obj is t else None
        def endpoint_done(it, k, v, l):
            if l.kind != "ext" or l.obj is not t or l.name == "ival": return None
            if l.name == "kind": return z3.Implies(e < k, z3.And(v.get(pe[0].leaf) == 3, v.get(pe[1].leaf) == 3))
            return z3.Implies(e < k, z3.And(v.get(pe[0].leaf) == P95(d.k(e)), v.get(pe[1].leaf) == P99(d.k(e))))
        FLOAT = lambda x: x
        def endpoint_kept(it, k, v, l):
            if l.kind != "ext" or l.obj is not t or l.name == "ival" or "endpoint" not in written: return None
            if l.name == "kind": return z3.And(v.get(pe[0].leaf) == 3, v.get(pe[1].leaf) == 3)
            return z3.And(v.get(pe[0].leaf) == P95(d.k(e)), v.get(pe[1].leaf) == P99(d.k(e)))
        def queue_done(it, k, v, l):
            if l.kind != "ext" or l.obj is not t or l.name == "oval": return None
            return z3.Implies(q < k, v.get(pq.leaf) == (2 if l.name == "kind" else SIZE(q)))
        def queue_kept(it, k, v, l):
            if l.kind != "ext" or l.obj is not t or l.name == "oval" or "queue" not in written: return None
            return v.get(pq.leaf) == (2 if l.name == "kind" else SIZE(q))
        def settings(**want):
            """what was written at the top of the document stays there"""
            def f(it, k, v, l):
                if l.kind != "ext" or l.obj is not t or l.name not in want: return None
                return z3.And(*[v.get(x) == y for x, y in want[l.name]])
            return f
        own = settings(kind=[(top[2], 2), (top[3], 1), (fixed[0], 3), (fixed[1], 3)], ival=[(top[2], per)], oval=[(fixed[0], app.z), (fixed[1], inst.z)])
        times = lambda it, k, v, l: z3.And(v.get(top[0]) >= 2, v.get(top[1]) >= 2) if l.kind == "ext" and l.obj is t and l.name == "kind" else None
        it.loop_spec = LoopSpec(templates=[y_same, endpoint_done, endpoint_kept, queue_done, queue_kept, own, times], exact=True)
        r = None
        try: r = call(it, w.o, fn)
        except PyExc as ex: ctx.oblige("update: does not fail", False, repr(ex.val) + str(getattr(ex.val, "fields", ""))); return
        if fn == "get_current_statistics": ctx.oblige("update: the current document is given", isinstance(r, SVal) and r.cls is Pos and r.z == ROOT)
        g = {n: t.st[n].get for n in ("kind", "ival", "oval")}
        ctx.oblige("update: every other entry stays", z3.And(g["kind"](y) == k0(y), g["ival"](y) == i0(y), g["oval"](y) == o0(y)))
        for p, f in ((pe[0], P95), (pe[1], P99)):
            ctx.oblige("update: percentiles are those of the endpoint", z3.And(g["kind"](p.leaf) == 3, g["oval"](p.leaf) == f(d.k(e))))
        ctx.oblige("update: queue sizes are current", z3.And(g["kind"](pq.leaf) == 2, g["ival"](pq.leaf) == SIZE(q)))
        ctx.oblige("update: the gathering period is reported", z3.And(g["kind"](top[2]) == 2, g["ival"](top[2]) == per))
        ctx.oblige("update: the application is reported", z3.And(g["kind"](top[3]) == 1, g["kind"](fixed[0]) == 3, g["oval"](fixed[0]) == app.z, g["kind"](fixed[1]) == 3, g["oval"](fixed[1]) == inst.z))
        ctx.oblige("update: the time is reported", z3.And(g["kind"](top[0]) >= 2, g["kind"](top[1]) >= 2))
        w.still("update")
    return task


def private(cls, name):
    f = vars(cls).get(f"_{cls.__name__}__{name}")
    if f is None: raise Unsupported(f"no {name}")
    return f


NC, CK, CI = z3.Function("children", U, I), z3.Function("child_key", U, I, U), z3.Function("child_index", U, U, I)


def reset_tree(ctx):
    """__reset_stats for an arbitrary group, by induction over the depth of the group."""
    w = W(ctx); it, t = w.it, w.tree
    fn = private(w.S, "reset_stats")
    p = ctx.fresh_u("group")
    k0, i0, o0 = (t.st[n].get for n in ("kind", "ival", "oval"))
    n = NC(p)
    c = lambda i: CH(p, CK(p, i))
    i, x = z3.Int("i!c"), z3.Const("x!c", U)
    A = ctx.assume
    A(z3.And(n >= 0, k0(p) == 1))
    A(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(k0(c(i)) != 0, CI(p, c(i)) == i)), patterns=[CK(p, i)]))
    # child_index(p, q): which of p's entries q is or lies under (-1: not under p)
    A(z3.ForAll([x], z3.Implies(k0(x) != 0, UNDER(x, p) == z3.And(CI(p, x) >= 0, CI(p, x) < n)), patterns=[UNDER(x, p)]))
    under = lambda q, i: z3.And(CI(p, q) == i, q != c(i))       # q lies strictly under entry i
    leafs = lambda g: {"kind": lambda q: z3.If(z3.And(g(q), k0(q) >= 2), 2, k0(q)), "ival": lambda q: z3.If(z3.And(g(q), k0(q) >= 2), 0, i0(q))}
    def hypothesis(it, args):
        s = it.term(args[-1])
        gk, gi = t.st["kind"].get, t.st["ival"].get
        j = CI(p, s)
        ctx.oblige("reset: the recursion is on a smaller group", z3.And(D(s) == D(p) + 1, j >= 0, j < n, s == c(j), gk(s) == 1))
        inn = lambda q: z3.And(under(q, j), gk(q) >= 2)
        t.set("kind", IntFn(lambda q: z3.If(inn(q), 2, gk(q)))); t.set("ival", IntFn(lambda q: z3.If(inn(q), 0, gi(q))))
    real = it.call_real
    active = []
    target = fn.__func__ if isinstance(fn, staticmethod) else fn
    def call_real(f, args, kw):
        if f is target and active: return hypothesis(it, list(args) + list(kw.values()))
        if f is target: active.append(1)
        return real(f, args, kw)
    it.call_real = call_real
    seen = []
    def children(it, q, pairs):
        if not ctx.prove_quick(q.z == p): raise Unsupported("iteration over another group")
        val = lambda i: t.content(it, c(i))
        if not pairs: return MList(ctx, None, n, lambda i: SVal(CK(p, i), str))
        def get(i):
            v = t.content(it, c(i))
            return (SVal(CK(p, i), str), v)
        return MList(ctx, None, n, get)
    w.children = children
    def closed(it, l, k, outs):
        if l.kind != "ext" or l.obj is not t or l.name not in ("kind", "ival"): return None
        at = lambda K: IntFn(leafs(lambda q: z3.And(CI(p, q) >= 0, CI(p, q) < K))[l.name])
        def same(it, a, K):
            y = it.ctx.fresh_u("y")
            kk = z3.simplify(K - 1)
            # nothing lies under an entry that is no group
            it.ctx.assume(z3.Implies(z3.And(k0(c(kk)) >= 2, under(y, kk)), k0(y) == 0))
            return a.get(y) == at(K).get(y)
        return Closed(at, same)
    it.loop_spec = LoopSpec(closed=closed)
    y = ctx.fresh_u("entry")
    gr = SVal(p, Pos)
    ctx.assume(z3.And(z3.Not(UNDER(p, p))))
    try: call(it, w.o, "_StatisticsKeeper__reset_stats", gr)
    except PyExc as e: ctx.oblige("reset: does not fail", False, repr(e.val)); return
    g = t.snap()
    u = UNDER(y, p)
    ctx.oblige("reset: every statistic of the group starts from zero", z3.Implies(z3.And(u, k0(y) >= 2), z3.And(g["kind"](y) == 2, g["ival"](y) == 0)))
    ctx.oblige("reset: groups stay", z3.Implies(k0(y) <= 1, g["kind"](y) == k0(y)))
    ctx.oblige("reset: nothing outside the group changes", z3.Implies(z3.And(z3.Not(u), k0(y) != 0), z3.And(g["kind"](y) == k0(y), z3.Implies(k0(y) == 2, g["ival"](y) == i0(y)), z3.Implies(k0(y) == 3, g["oval"](y) == o0(y)))))


def reset_all(ctx):
    w = W(ctx); it, t, d = w.it, w.tree, w.durs
    fn, all_ = private(w.S, "reset_stats"), private(w.S, "reset_current_statistics")
    target = fn.__func__ if isinstance(fn, staticmethod) else fn
    did = []
    def contract(it, *a):
        did.append(1)
        ctx.oblige("period end: the whole document is reset", isinstance(a[-1], SVal) and a[-1].cls is Pos and a[-1].z == ROOT)
    it.contracts[f"{w.M.__name__}.{target.__qualname__}"] = contract
    y = ctx.fresh_u("endpoint")
    zero = lambda it, k, v, l: z3.Implies(z3.And(d.ix(y) >= 0, d.ix(y) < k, d.first["dom"].get(y)), v.get(y) == 0) if l.kind == "ext" and l.obj is d and l.name == "n" else None
    known = lambda it, k, v, l: v.get(y) == d.first["dom"].get(y) if l.kind == "ext" and l.obj is d and l.name == "dom" else None
    def closed(it, l, k, outs):
        if l.kind != "ext" or l.obj is not d or l.name not in ("n", "dom"): return None
        n0, d0 = d.first["n"].get, d.first["dom"].get
        if l.name == "n": at = lambda K: IntFn(lambda x: z3.If(z3.And(d0(x), d.ix(x) >= 0, d.ix(x) < K), 0, n0(x)))
        else: at = lambda K: FieldFn(d0)
        def same(it, a, K):
            z = it.ctx.fresh_u("z")
            return a.get(z) == at(K).get(z)
        return Closed(at, same)
    it.loop_spec = LoopSpec(closed=closed)
    try: call(it, w.o, "_StatisticsKeeper__reset_current_statistics")
    except PyExc as e: ctx.oblige("period end: does not fail", False, repr(e.val)); return
    ctx.oblige("period end: the document is reset", len(did) >= 1)
    dd = w.o.fields.get(w.d)
    if dd is not d: raise Unsupported("the durations are another container")
    ctx.oblige("period end: no endpoint has recorded calls", z3.And(d.st["dom"].get(y) == d.first["dom"].get(y), z3.Implies(d.st["dom"].get(y), d.st["n"].get(y) == 0)))
    cur = w.o.fields.get(w.cur)
    ctx.oblige("period end: the document stays the one recorded in", isinstance(cur, SVal) and cur.z == ROOT)


HIST = z3.Function("gathered", I, U)


class Cur(Ext):
    pycls = dict


def gather(ctx):
    """gather_statistics: every period end, in any order of suspension, stop and period lengths."""
    w = W(ctx, False); it, o = w.it, w.o
    upd, rst = private(w.S, "update_current_statistics"), private(w.S, "reset_current_statistics")
    per, H = ctx.fresh_int("gather_period"), ctx.fresh_int("history_length")
    ctx.small += [per, H]
    ctx.assume(z3.And(per >= 1, H >= 0))
    call(it, o, "set_gather_period", SInt(per)); call(it, o, "set_history_length", SInt(H))
    it.models[time.time] = lambda it: SInt(ctx.fresh_int("now"))
    it.models[int] = lambda it, v=0, *a: v
    before = dict(o.fields)
    call(it, o, "__aenter__")
    run = [n for n, v in o.fields.items() if v is True and before.get(n) is not True]
    if len(run) != 1: raise Unsupported("not one flag for running")
    run = run[0]
    cur = Cur(ctx)
    o.fields[w.cur] = cur
    ghost = type("Ghost", (Ext,), {})(ctx, waited=SInt(z3.IntVal(0)), phase=0)
    mark = MList(ctx, None, ctx.fresh_int("unknown_history"), lambda i: SVal(HIST(-1 - i), dict))
    o.fields[w.h] = mark
    state = {"h": None}
    running = lambda: it.zb(it.getattr(o, run)) if not isinstance(it.getattr(o, run), bool) else z3.BoolVal(it.getattr(o, run))
    def sleep(it, s=0, *a, **k):
        def go():
            ctx.oblige("gather: nothing else runs between taking the values and starting from zero", ghost.st["phase"] == 0)
            ghost.set("waited", SInt(z3.simplify(ghost.st["waited"].z + it.z(s))))
            it.setattr(o, run, SBool(z3.And(running(), ctx.fresh_bool("goes_on"))))
        return Coro(go, "sleep")
    it.models[asyncio.sleep] = sleep
    def update(it, self_):
        def go():
            ctx.oblige("gather: the document is brought up to date once", ghost.st["phase"] == 0)
            ctx.oblige("gather: a period ends after the gathering period", ghost.st["waited"].z == per)
            ctx.oblige("gather: nothing is gathered once stopped", running())
            h = ctx.fresh_int("gathered_before")
            ctx.small.append(h)
            ctx.assume(z3.And(h >= 0, h <= H))
            state["h"] = h
            ctx.oblige("gather: the history only changes at period ends", it.getattr(o, w.h) is mark and mark.symbolic)
            it.setattr(o, w.h, MList(ctx, None, h, lambda i: SVal(HIST(i), dict)))
            ghost.set("phase", 1)
        return Coro(go, "update")
    def deep(it, v, *a):
        if v is not cur: raise Unsupported("copy of something else")
        ctx.oblige("gather: the values are up to date when copied", ghost.st["phase"] == 1)
        state["snap"] = ctx.fresh_u("copy")
        return SVal(state["snap"], dict)
    it.models[copy.deepcopy] = deep
    it.models[copy.copy] = lambda it, v: opaque(ctx, "shallow_copy", dict)
    def reset(it, self_):
        def go():
            ctx.oblige("gather: values are gathered before starting from zero", ghost.st["phase"] == 1)
            l, h = it.getattr(o, w.h), state["h"]
            if not isinstance(l, MList) or h is None: raise Unsupported("the history is no list")
            n = it.z(methods.seq_len(it, l))
            ctx.oblige("gather: at most the configured number of periods is kept", n == z3.If(h + 1 <= H, h + 1, H))
            if ctx.branch(n >= 1):
                first = methods.getitem(it, l, 0)
                ctx.oblige("gather: the newest period is a copy of the values gathered", isinstance(first, SVal) and "snap" in state and first.z == state["snap"], repr(first))
                i = ctx.fresh_int("i")
                ctx.assume(z3.And(i >= 1, i < n))
                v = methods.getitem(it, l, SInt(i))
                ctx.oblige("gather: older periods follow, newest first", it.term(v) == HIST(i - 1) if isinstance(v, SVal) else False)
            ghost.set("phase", 0); ghost.set("waited", SInt(z3.IntVal(0)))
            it.setattr(o, w.h, mark)
        return Coro(go, "reset")
    # alternative ways of writing the two steps are unfolded by the contracts of the same functions
    it.contracts[f"{w.M.__name__}.{upd.__qualname__}"] = update
    it.contracts[f"{w.M.__name__}.StatisticsKeeper.get_current_statistics"] = lambda it, s: Coro(lambda: (it.await_(update(it, s)), cur)[1], "current")
    it.contracts[f"{w.M.__name__}.{rst.__qualname__}"] = reset
    quiet = lambda it, k, v, l: z3.Or(v.z == 0, z3.Not(running())) if l.kind == "ext" and l.obj is ghost and l.name == "waited" else None
    below = lambda it, k, v, l: it.z(v) <= per if isinstance(v, (int, SInt)) and not isinstance(v, bool) else None
    num = lambda v: isinstance(v, (int, SInt)) and not isinstance(v, bool)
    plain = lambda v, l: num(v) and not (l.kind == "ext" and l.obj is ghost)
    upto = lambda it, k, v, l: it.z(v) == ghost.st["waited"].z if plain(v, l) else None
    rest = lambda it, k, v, l: it.z(v) + ghost.st["waited"].z == per if plain(v, l) else None
    positive = lambda it, k, v, l: it.z(v) >= 0 if plain(v, l) else None
    it.loop_spec = LoopSpec(templates=[quiet, below, upto, rest, positive], exact=True, body_paths=400)
    try: call(it, o, "gather_statistics")
    except PyExc as e:
        ctx.oblige("gather: does not fail", False, repr(e.val)); return
    ctx.oblige("gather: ends between periods", ghost.st["phase"] == 0)
    ctx.oblige("gather: ends only when stopped", z3.Not(running()))


def history(ctx):
    w = W(ctx, False); it, o = w.it, w.o
    h = ctx.fresh_int("gathered_periods")
    ctx.assume(h >= 0)
    l = o.fields[w.h] = MList(ctx, None, h, lambda i: SVal(HIST(i), dict))
    r = call(it, o, "get_full_gathered_statistics")
    ctx.oblige("history: all gathered periods, newest first", r is l or isinstance(r, MList) and z3.And(it.z(methods.seq_len(it, r)) == h))
    if r is not l and isinstance(r, MList):
        i = ctx.fresh_int("i"); ctx.assume(z3.And(i >= 0, i < h))
        ctx.oblige("history: in the order of the history", it.term(methods.getitem(it, r, SInt(i))) == HIST(i))
    try: r = call(it, o, "get_last_gathered_statistics")
    except PyExc as e: ctx.oblige("history: does not fail", False, repr(e.val)); return
    if ctx.branch(h > 0): ctx.oblige("history: the last gathered is the newest", isinstance(r, SVal) and it.term(r) == HIST(0))
    else: ctx.oblige("history: nothing before the first period end", isinstance(r, MDict) and not r.symbolic and not r.d, repr(r))
    ctx.oblige("history: unchanged by asking", o.fields.get(w.h) is l and l.symbolic and l.n is h)


def endpoint(ctx):
    from ekosis.standard_endpoints import statistics as M
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
    from . import errors as E
    it = C.interp(ctx)
    fn, T = E.endpoint_fn(M.__name__, "eco.statistics.get")
    vals = {n: opaque(ctx, n) for n in ("current", "full", "last")}
    def m(n):
        return lambda s, it: Coro(lambda: vals[n], n)
    k = type("Keeper", (Ext,), {"m_get_current_statistics": m("current"), "m_get_full_gathered_statistics": m("full"), "m_get_last_gathered_statistics": m("last")})(ctx)
    it.singletons[StatisticsKeeper] = k
    t = opaque(ctx, "asked_for", str)
    dto = type("Dto", (Ext,), {"g_type": lambda s, it: t})(ctx)
    try: r = it.await_(it.call(fn, [], {"dto": dto}))
    except PyExc as e: ctx.oblige("eco.statistics.get: does not fail", False, repr(e.val)); return
    v = r.fields.get("statistics") if isinstance(r, Obj) else None
    if v is None: raise Unsupported("answer of another form")
    want = z3.If(t.z == it.term("current"), vals["current"].z, z3.If(t.z == it.term("full"), vals["full"].z, vals["last"].z))
    ctx.oblige("eco.statistics.get: gives what was asked for", it.term(v) == want)


def queues_reported(kind):
    """Setting up a buffered endpoint or sender has the sizes of its two queues reported under its route."""
    def task(ctx):
        from . import buffered
        w = buffered.W(ctx, kind); it = w.it
        mark = len(ctx.trace)
        w.setup()
        regs = [d for k, d in ctx.trace[mark:] if k == "stat_queue"]
        ctx.oblige("queue sizes: both queues are reported", len(regs) == 2)
        if len(regs) != 2: return
        want = {id(w.pq): "pending", id(w.eq): "error"}
        for d in regs:
            n = want.pop(id(d["q"]), None)
            ctx.oblige("queue sizes: the queues reported are those of the endpoint or sender", n is not None)
            if n is None: continue
            key = it.concat([f"buffered_{'endpoint' if kind == 'handler' else 'sender'}_sizes.", w.route, "." + n])
            ctx.oblige("queue sizes: reported under the route and the kind of queue", it.term(d["key"]) == it.term(key))
    return task
