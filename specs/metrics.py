"""Contracts of the prometheus translation (C20).

A statistics document is a tree.  The translation of an arbitrary document is proved by following one arbitrary
metric: how often it is given, and with which value (ghost counter and value)."""
import z3
from dv.core import *
from dv import methods
from dv.interp import MDict, ModelFn
from dv.loops import LoopSpec, Closed
from . import common as C
from .common import call, opaque

ROOT = z3.Const("doc!", U)
CH = z3.Function("entry", U, U, U)
PAR, SEG = z3.Function("entry_of", U, U), z3.Function("entry_name", U, U)
KIND, VALUE, TEXT = z3.Function("entry_kind", U, I), z3.Function("entry_number", U, I), z3.Function("entry_text", U, U)
NC, CK, CI = z3.Function("entries", U, I), z3.Function("entry_key", U, I, U), z3.Function("entry_index", U, U, I)
# the numbers under an entry, in the order in which they are met
NL, LEAF, IDX, LU = z3.Function("numbers", U, I), z3.Function("number_at", U, I, U), z3.Function("number_index", U, U, I), z3.Function("number_under", U, U, B)
NJ, FS = z3.Function("joined_name", U, U, U, U), z3.Function("entry_towards", U, U, U)
EXCL_, SOME_EXCL = z3.Function("excluded_group", U, B), z3.Bool("some_group_excluded")
def EXCL(g): return z3.And(SOME_EXCL, EXCL_(g))
ABSENT, GROUP, NUM, NULL, OTHER = range(5)
P_, S_, I_ = z3.Const("p?", U), z3.Const("s?", U), z3.Int("i?")
KEYS = z3.Implies(z3.And(I_ >= 0, I_ < NC(P_)), z3.And(CI(P_, CK(P_, I_)) == I_, KIND(CH(P_, CK(P_, I_))) != ABSENT))
SECTIONS = {"ekosis_endpoint_call_count": ("endpoint_data", "call_count"), "ekosis_endpoint_p95_seconds": ("endpoint_data", "p95"), "ekosis_endpoint_p99_seconds": ("endpoint_data", "p99"),
            "ekosis_buffered_endpoint_queue_pending": ("buffered_endpoint_sizes", "pending"), "ekosis_buffered_endpoint_queue_error": ("buffered_endpoint_sizes", "error"),
            "ekosis_buffered_sender_queue_pending": ("buffered_sender_sizes", "pending"), "ekosis_buffered_sender_queue_error": ("buffered_sender_sizes", "error")}
PARTS = ("service", "queues", "ekosis_endpoint_call_count", "ekosis_endpoint_p95_seconds", "ekosis_endpoint_p99_seconds")
PLAIN = {"ekosis_uptime_seconds": "uptime", "ekosis_gather_period_seconds": "gather_period"}
KNOWN = ("application", "endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "timestamp", "uptime", "gather_period")


class Node(Ext):
    """A group of the document."""
    pycls = dict
    def __init__(self, w, t): super().__init__(w.ctx); self.w, self.t = w, t
    def terms_(self): return [self.t]
    def subst_(self, it, pairs): return Node(self.w, z3.substitute(self.t, *pairs))
    def ite_(self, it, c, o): return Node(self.w, z3.If(c, self.t, o.t))
    def m_get(self, it, k, default=None):
        q = self.w.ch(self.t, it.term(k))
        if isinstance(k, str):
            # no case distinction where both cases are values of the same kind
            self.w.shape(k, q)
            if k in LEAVES and default is None: return SInt(VALUE(q)) if it.ctx.branch(KIND(q) == NUM) else None
            if k in GROUPS and isinstance(default, MDict) and not default.symbolic and not default.d: return Node(self.w, q)
            if k in TEXTS and isinstance(default, (SVal, str)): return SVal(z3.If(KIND(q) == ABSENT, it.term(default), TEXT(q)), str)
        r = self.w.content(it, self.t, k)
        return default if r is ABSENT_ else r
    def getitem_(self, it, k):
        r = self.w.content(it, self.t, k)
        if r is ABSENT_: it.raise_py(KeyError, k)
        return r
    def contains_(self, it, k): return SBool(KIND(self.w.ch(self.t, it.term(k))) != ABSENT)
    def len_(self, it): return SInt(NC(self.t))
    def truth(self, it): return it.ctx.branch(NC(self.t) > 0)
    def key(self, i): return self.w.key(self.t, i)
    def m_items(self, it): return self.w.entries(self, lambda i: (self.key(i), self.w.content(it, self.t, self.key(i))))
    def m_keys(self, it): return self.w.entries(self, self.key)
    def m_values(self, it): return self.w.entries(self, lambda i: self.w.content(it, self.t, self.key(i)))
    def iter_(self, it): return self.m_keys(it)


ABSENT_ = object()
LEAVES = ("uptime", "gather_period", "timestamp", "call_count", "p95", "p99", "pending", "error")
GROUPS = ("endpoint_data", "application", "buffered_endpoint_sizes", "buffered_sender_sizes")
TEXTS = ("name", "instance")


class Gen(Ext):
    """A generator that was called: runs when its values are asked for, once."""
    def __init__(self, ctx, run): super().__init__(ctx, done=False); self.run = run
    def go(self):
        if self.st["done"]: return
        self.set("done", True)
        self.run()


class QueueGroups(Ext):
    """What _iter_queue_groups gives, by its contract."""
    def __init__(self, ctx, **a): super().__init__(ctx); self.a = a


class W:
    def __init__(self, ctx):
        from ekosis_prometheus import stats_translator as M
        self.ctx, self.M = ctx, M
        it = self.it = C.interp(ctx)
        self.facts, self.memo, self.tree = None, {}, None
        self.g = Ext(ctx)
        it.generators = lambda name, run: Gen(ctx, run)
        it.sink, it.sink_from = (lambda v: self.sink(v)), self.sink_from
        it.models[float] = lambda it, v=0: v
        it.attr_models[(str, ".replace")] = self.replace
        self.leaves, self.X = {}, None

    def ch(self, p, s):
        """The entry s of p, with the facts of a tree about it."""
        key = (p.get_id(), s.get_id())
        if key not in self.memo:
            if self.tree is None: self.tree = self.of(P_, S_)
            self.memo[key] = (CH(p, s), z3.substitute(self.tree, (P_, p), (S_, s)), p, s)
        q, f = self.memo[key][:2]
        self.ctx.assume(f)
        return q
    def fresh_facts(self): self.memo, self.tree = {}, None
    def of(self, p, s):
        q = CH(p, s)
        f = [PAR(q) == p, SEG(q) == s, KIND(q) >= ABSENT, KIND(q) <= OTHER, NC(p) >= 0,
             z3.Implies(z3.And(KIND(p) == GROUP, KIND(q) != ABSENT), z3.And(CI(p, s) >= 0, CI(p, s) < NC(p), CK(p, CI(p, s)) == s)),
             z3.Implies(KIND(p) != GROUP, z3.And(KIND(q) == ABSENT, NC(p) == 0))]
        return z3.And(*f, *self.facts(p, s, q)) if self.facts else z3.And(*f)

    def key(self, p, i):
        k = CK(p, i)
        self.ch(p, k)
        self.ctx.assume(z3.substitute(KEYS, (P_, p), (I_, i)))
        return SVal(k, str)

    def entries(self, node, get):
        self.ctx.assume(z3.And(NC(node.t) >= 0, z3.Implies(KIND(node.t) != GROUP, NC(node.t) == 0)))
        l = MList(self.ctx, None, NC(node.t), get)
        l.node = node.t
        return l

    def shape(self, k, q):
        """Shape of a statistics document: what the known entries are."""
        t = ("leaf", (ABSENT, NUM, NULL)) if k in LEAVES else ("group", (ABSENT, GROUP)) if k in GROUPS else ("text", (ABSENT, OTHER)) if k in TEXTS else None
        if t is None: return
        m = (t[0], q.get_id())
        if m not in self.memo: self.memo[m] = (z3.Or(*[KIND(q) == x for x in t[1]]), q)
        self.ctx.assume(self.memo[m][0])

    def content(self, it, p, k):
        ctx, q = self.ctx, self.ch(p, it.term(k))
        kd = KIND(q)
        if isinstance(k, str): self.shape(k, q)
        if ctx.branch(kd == ABSENT): return ABSENT_
        if ctx.branch(kd == GROUP): return Node(self, q)
        if ctx.branch(kd == NUM): return SInt(VALUE(q))
        if ctx.branch(kd == NULL): return None
        return SVal(TEXT(q), str)

    def replace(self, it, s, old, new, *a):
        if a or not isinstance(old, str) or not isinstance(new, str): raise Unsupported("replace of another kind")
        base, maps = getattr(s, "replaced", (it.term(s), ()))
        maps = tuple(m for m in maps if m[0] != old or m[1] != new)
        # single characters replaced by one that is not itself replaced: the order does not matter
        if len(old) != 1 or any(new in (o,) or old in n for o, n in maps) or old in new: raise Unsupported("replacements that depend on their order")
        maps = tuple(sorted(maps + ((old, new),)))
        r = SVal(z3.Function("replace!" + repr(maps), U, U)(base), str)
        r.replaced = (base, maps)
        return r
    def safe(self, s): return self.it.term(self.replace(self.it, self.replace(self.it, SVal(s, str), ".", "_"), "-", "_"))
    def join(self, prefix, s):
        """prefix_s, or s alone under an empty prefix"""
        sf = self.safe(s)
        return z3.If(truthy(prefix), self.it.term(self.it.concat([SVal(prefix, str), "_", SVal(sf, str)])), sf)

    def numbers(self, it, c, prefix):
        """Contract of _flatten: exactly the numbers under c, each once, named after its position."""
        ctx, p = self.ctx, it.term(prefix)
        if self.X is not None: self.under(self.X, c)
        def get(i):
            x = LEAF(c, i)
            ctx.assume(z3.Implies(z3.And(i >= 0, i < NL(c)), z3.And(LU(x, c), KIND(x) == NUM, IDX(c, x) == i)))
            v = SVal(NJ(p, c, x), str)
            v.owner, v.under = x, c
            return (v, SInt(VALUE(x)))
        ctx.assume(NL(c) >= 0)
        l = MList(ctx, None, NL(c), get)
        self.leaves[l.ident] = (c, p)
        l.numbers_of = c
        return l

    def under(self, x, c):
        self.ctx.assume(z3.Implies(LU(x, c), z3.And(IDX(c, x) >= 0, IDX(c, x) < NL(c), LEAF(c, IDX(c, x)) == x, KIND(x) == NUM)))

    def follow(self, *names):
        """Ghost state: how often each of these metrics was given, and the value given last."""
        for n in names:
            self.g.set("n:" + n, SInt(z3.IntVal(0))); self.g.set("v:" + n, SInt(z3.IntVal(0)))
    def add(self, name, match, value):
        if "n:" + name not in self.g.st: return
        g, it = self.g, self.it
        g.set("n:" + name, SInt(z3.simplify(z3.If(match, g.st["n:" + name].z + 1, g.st["n:" + name].z))))
        g.set("v:" + name, SInt(z3.simplify(z3.If(match, it.z(value), g.st["v:" + name].z))))
    def count(self, name): return self.g.st["n:" + name].z
    def value(self, name): return self.g.st["v:" + name].z
    def loops(self, done):
        """done(name, k): the metric has been given at the head of iteration k of the loop (None: not a loop that gives it)
        and the value it is given with."""
        it, g = self.it, self.g
        def closed(it, l, k, outs):
            if l.kind != "ext" or l.obj is not g or done(l.name[2:], k) is None: return None
            def at(K):
                d, v = done(l.name[2:], K)
                return SInt(z3.If(d, 1 if l.name[0] == "n" else v, 0))
            return Closed(at, lambda it, a, K: it.z(a) == at(K).z)
        it.loop_spec = LoopSpec(closed=closed, exact=True, declared=[(g, n) for n in g.st])
    def sink_from(self, v):
        if isinstance(v, Gen): v.go()
        elif isinstance(v, MList) and v.ident in self.leaves: self.sink_leaves(v)
        elif isinstance(v, QueueGroups): self.sink_queues(v)
        elif isinstance(v, MList) and not v.symbolic or isinstance(v, tuple):
            for x in (v if isinstance(v, tuple) else list(v.items)): self.sink(x)
        else: raise Unsupported("values given on from something else")


def lies(x, q):
    """A number lies in a group, or is the entry itself."""
    return z3.Implies(LU(x, q), z3.Or(KIND(q) == GROUP, z3.And(KIND(q) == NUM, q == x)))


def flatten(ctx):
    """_flatten of an arbitrary entry: by induction over the document."""
    w = W(ctx); it = w.it
    kinds = (GROUP, NUM, OTHER, NULL)
    kd = kinds[ctx.choose_n(4, "kind")]
    c0, X, prefix = z3.Const("given!", U), z3.Const("number!", U), opaque(ctx, "prefix", str)
    w.X = X
    A = ctx.assume
    A(z3.And(KIND(c0) == kd, LU(X, c0), KIND(X) == NUM))
    s0 = FS(c0, X)
    want = NJ(prefix.z, c0, X)
    if kd == GROUP:
        A(z3.And(X != c0, LU(X, CH(c0, s0)), KIND(CH(c0, s0)) != ABSENT))
        A(want == NJ(w.join(prefix.z, s0), CH(c0, s0), X))
        w.facts = lambda p, s, q: (z3.Implies(p == c0, LU(X, q) == (s == s0)), lies(X, q))
        w.fresh_facts()
        w.ch(c0, s0)
    elif kd == NUM: A(z3.And(X == c0, want == prefix.z))
    exists = kd in (GROUP, NUM)
    def sink(v):
        if not (isinstance(v, tuple) and len(v) == 2): raise Unsupported("something else than a name and a value")
        name, val = v
        if isinstance(val, bool) or not isinstance(val, SInt): raise Unsupported("value of another form")
        if hasattr(name, "owner"):
            ctx.oblige("flatten: only what lies in the entry is given", PAR(name.under) == c0)
            ctx.oblige("flatten: a number has its value", it.z(val) == VALUE(name.owner))
            w.add("x", z3.And(name.owner == X, it.term(name) == want), val)
            return
        if kd != NUM: ctx.oblige("flatten: only numbers are given", False, repr(v)); return
        ctx.oblige("flatten: a number has its value", it.z(val) == VALUE(c0))
        w.add("x", it.term(name) == want, val)
    def leaves(l):
        c, p = w.leaves[l.ident]
        ctx.oblige("flatten: only what lies in the entry is given", PAR(c) == c0)
        w.under(X, c)
        w.add("x", z3.And(LU(X, c), NJ(p, c, X) == want), SInt(VALUE(X)))
    w.sink, w.sink_leaves = sink, leaves
    fn = w.M._flatten
    def contract(it, obj, prefix):
        """the recursion is on an entry of the entry (a smaller one)"""
        if isinstance(obj, Node): c = obj.t
        elif isinstance(obj, SInt) and z3.is_app(obj.z) and obj.z.decl().eq(VALUE): c = obj.z.arg(0)
        elif isinstance(obj, SVal) and z3.is_app(obj.z) and obj.z.decl().eq(TEXT): return MList(ctx, [])
        elif obj is None: return MList(ctx, [])
        else: raise Unsupported("flattening of something else")
        return w.numbers(it, c, prefix)
    started = []
    real = it.call_real
    def call_real(f, args, kw):
        if f is fn and started:
            b = dict(zip(("obj", "prefix"), args)); b.update(kw)
            return contract(it, b["obj"], b["prefix"])
        if f is fn: started.append(1)
        return real(f, args, kw)
    it.call_real = call_real
    w.follow("x")
    def done(n, k):
        seq = it.loop_seqs[-1]
        c = getattr(seq, "numbers_of", None)
        if c is not None: return z3.Or(CI(c0, s0) < CI(c0, SEG(c)), z3.And(c == CH(c0, s0), IDX(c, X) < k)), VALUE(X)
        return (CI(c0, s0) < k, VALUE(X)) if node_of(seq) is not None else None
    w.loops(done)
    obj = {GROUP: lambda: Node(w, c0), NUM: lambda: SInt(VALUE(c0)), OTHER: lambda: SVal(TEXT(c0), str), NULL: lambda: None}[kd]()
    try:
        r = it.call(fn, [obj, prefix], {})
        w.sink_from(r)
    except PyExc as e: ctx.oblige("flatten: does not fail", False, repr(e.val)); return
    n = w.count("x")
    if exists:
        ctx.oblige("flatten: every number is given exactly once, under its name", n == 1)
        ctx.oblige("flatten: with its value", w.value("x") == VALUE(X))
    else: ctx.oblige("flatten: nothing is given for what is no number", n == 0)


class Followed:
    """An arbitrary endpoint of a section, and its metrics."""
    def __init__(self, w, sec, leaves, excluded):
        self.w, self.sec, self.leaves = w, sec, leaves
        ctx = w.ctx
        self.G, self.E = ctx.fresh_u("group"), ctx.fresh_u("endpoint")
        g = w.ch(sec, self.G); e = w.ch(g, self.E)
        self.p = {l: w.ch(e, w.it.term(l)) for l in leaves}
        base = z3.And(KIND(sec) == GROUP, z3.Not(excluded(self.G)), KIND(g) == GROUP, KIND(e) == GROUP)
        self.exists = {l: z3.And(base, KIND(p) == NUM, VALUE(p) >= 0 if l in ("p95", "p99") else True) for l, p in self.p.items()}
    def done(self, leaf, k):
        cur = node_of(self.w.it.loop_seqs[-1])
        sec, ex = self.sec, self.exists[leaf]
        if cur is None: return None
        if cur.eq(sec): d = CI(sec, self.G) < k
        elif z3.is_app(cur) and cur.decl().eq(CH) and cur.arg(0).eq(sec): d = z3.Or(CI(sec, self.G) < CI(sec, cur.arg(1)), z3.And(cur.arg(1) == self.G, CI(cur, self.E) < k))
        else: return None
        return z3.And(ex, d), VALUE(self.p[leaf])


def labelled(ctx, it, labels, keys, want, who):
    """The labels are these and no others."""
    if not isinstance(labels, MDict) or labels.symbolic: raise Unsupported("labels of another form")
    d = labels.d
    ctx.oblige(who + ": the labels of the metric", set(d) == keys, repr(list(d)))
    if set(d) != keys: return False
    for k in want: ctx.oblige(f"{who}: labelled with the {k} the document names, else the given one", it.term(d[k]) == want[k])
    return True


def queue_groups(ctx):
    """_iter_queue_groups of an arbitrary part of the document."""
    w = W(ctx); it = w.it
    sec = z3.Const("queue_data!", U)
    ctx.assume(z3.And(z3.Or(KIND(sec) == GROUP, z3.And(KIND(sec) == ABSENT, NC(sec) == 0))))
    f = Followed(w, sec, ("pending", "error"), EXCL)
    w.follow("pending", "error")
    w.loops(lambda n, k: f.done(n, k))
    prefix, svc, inst = opaque(ctx, "metric_prefix", str), opaque(ctx, "service", str), opaque(ctx, "instance", str)
    names = {l: it.concat([prefix, "_queue_" + l]) for l in ("pending", "error")}
    def sink(v):
        if not (isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], SInt)): raise Unsupported("something else than name, value and labels")
        name, val, labels = v
        leaf = next((l for l, n in names.items() if it.term(n).eq(it.term(name))), None)
        ctx.oblige("queues: no other metric is given", leaf is not None, repr(name))
        if leaf is None or not labelled(ctx, it, labels, {"service", "instance", "group", "endpoint"}, {"service": svc.z, "instance": inst.z}, "queues"): return
        g, e = it.term(labels.d["group"]), it.term(labels.d["endpoint"])
        w.add(leaf, z3.And(g == f.G, e == f.E), val)
        if ctx.quiet: return
        q = w.ch(w.ch(w.ch(sec, g), e), it.term(leaf))
        ctx.oblige("queues: only endpoints of groups that are not excluded", z3.Not(EXCL(g)))
        ctx.oblige("queues: a metric has the value at its position", z3.And(KIND(q) == NUM, it.z(val) == VALUE(q)))
    w.sink = sink
    try: w.sink_from(it.call(w.M._iter_queue_groups, [Node(w, sec), groups(ctx), prefix, MDict(ctx, {"service": svc, "instance": inst})], {}))
    except PyExc as e: ctx.oblige("queues: does not fail", False, repr(e.val)); return
    for l in names:
        ctx.oblige(f"queues: every {l} number is given exactly once, and nothing else", w.count(l) == z3.If(f.exists[l], 1, 0))
        ctx.oblige("queues: with its value", z3.Implies(f.exists[l], w.value(l) == VALUE(f.p[l])))


def groups(ctx): return type("Groups", (Ext,), {"pycls": set, "truth": lambda s, it: it.ctx.branch(SOME_EXCL), "contains_": lambda s, it, k: SBool(EXCL(it.term(k)))})(ctx)


def translate(default, part):
    """translate_gathered_stats for every document, following the metrics of one part."""
    def task(ctx):
        w = W(ctx); it = w.it
        A = ctx.assume
        A(KIND(ROOT) == GROUP)
        svc, inst = opaque(ctx, "service_name", str), opaque(ctx, "instance", str)
        T = lambda *path: _at(w, path)
        app = T("application")
        def identity(key, given):
            q = w.ch(app, it.term(key))
            return z3.If(KIND(q) == ABSENT, given.z, TEXT(q))
        want_labels = {"service": identity("name", svc), "instance": identity("instance", inst)}
        excluded = (lambda g: g == it.term("eco")) if default else (lambda g: EXCL(g))
        # one arbitrary endpoint per part of the document
        F = {}
        for kind, (section, leaf) in SECTIONS.items():
            if section not in F: F[section] = Followed(w, T(section), [l for s, l in SECTIONS.values() if s == section], excluded)
        # an arbitrary number among the custom statistics, if there is one
        X, s0, some = z3.Const("number!", U), z3.Const("custom_key!", U), z3.Bool("some_number!")
        c0 = CH(ROOT, s0)
        A(z3.Implies(some, z3.And(LU(X, c0), KIND(X) == NUM, KIND(c0) != ABSENT, *[s0 != it.term(k) for k in KNOWN])))
        w.facts = lambda p, s, q: (z3.Implies(p == ROOT, LU(X, q) == z3.And(some, s == s0)), lies(X, q))
        w.fresh_facts()
        w.ch(ROOT, s0)
        w.under(X, c0)
        mine = [k for k in (*PLAIN, *SECTIONS, "custom") if part_of(k) == part]
        w.follow(*mine)
        def sink(v):
            if not (isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], SInt)): raise Unsupported("something else than name, value and labels")
            name, val, labels = v
            pieces = getattr(name, "pieces", None)
            if isinstance(name, str) and name in SECTIONS: keys = {"service", "instance", "group", "endpoint"}
            elif isinstance(name, str) and name in PLAIN: keys = {"service", "instance"}
            elif pieces and len(pieces) == 2 and pieces[0] == "ekosis_custom_": keys = {"service", "instance"}
            else: ctx.oblige("translate: no other metric is given", False, repr(name)); return
            if not labelled(ctx, it, labels, keys, want_labels, "translate"): return
            d = labels.d
            if pieces:
                x = getattr(pieces[1], "owner", None)
                if x is None: ctx.oblige("translate: custom metrics are named after the position of a number", False, repr(name)); return
                ctx.oblige("translate: a custom metric has the value at its position", it.z(val) == VALUE(x))
                c = pieces[1].under
                ctx.oblige("translate: custom metrics come from entries that are none of the known ones", z3.And(PAR(c) == ROOT, *[SEG(c) != it.term(q) for q in KNOWN]))
                w.add("custom", z3.And(some, x == X, it.term(pieces[1]) == NJ(s0, c0, X)), val)
            elif name in SECTIONS:
                section, leaf = SECTIONS[name]
                f, g, e = F[section], it.term(d["group"]), it.term(d["endpoint"])
                w.add(name, z3.And(g == f.G, e == f.E), val)
                if ctx.quiet: return
                q = w.ch(w.ch(w.ch(T(section), g), e), it.term(leaf))
                ctx.oblige("translate: only endpoints of groups that are not excluded", z3.Not(excluded(g)))
                ctx.oblige("translate: a metric of an endpoint has the value at its position", z3.And(KIND(q) == NUM, it.z(val) == VALUE(q)))
            else:
                w.add(name, z3.BoolVal(True), val)
                ctx.oblige("translate: a metric of the service has the value at its position", z3.And(KIND(T(PLAIN[name])) == NUM, it.z(val) == VALUE(T(PLAIN[name]))))
        w.sink = sink
        def leaves(l): raise Unsupported("numbers given on as they are")
        w.sink_leaves = leaves
        def flat(it, obj, prefix):
            if isinstance(obj, Node): c = obj.t
            elif isinstance(obj, SInt) and z3.is_app(obj.z) and obj.z.decl().eq(VALUE): c = obj.z.arg(0)
            elif isinstance(obj, SVal) and z3.is_app(obj.z) and obj.z.decl().eq(TEXT) or obj is None: return MList(ctx, [])
            else: raise Unsupported("flattening of something else")
            w.under(X, c)
            return w.numbers(it, c, prefix)
        it.contracts[f"{w.M.__name__}._flatten"] = flat
        it.contracts[f"{w.M.__name__}._iter_queue_groups"] = lambda it, queue_data, exclude_groups, metric_prefix, labels: QueueGroups(ctx, data=queue_data, out=exclude_groups, prefix=metric_prefix, labels=labels)
        def queues(q):
            """proved for every part of a document, prefix and set of groups (queue_groups)"""
            data, prefix = q.a["data"], q.a["prefix"]
            if isinstance(data, MDict) and not data.symbolic and not data.d: return
            if not isinstance(data, Node) or not isinstance(prefix, str): raise Unsupported("queue metrics of something else")
            for leaf in ("pending", "error"):
                kind = f"{prefix}_queue_{leaf}"
                ok = kind in SECTIONS
                ctx.oblige("translate: no other metric is given", ok, kind)
                if not ok: return
                f = F[SECTIONS[kind][0]]
                ctx.oblige("translate: queue metrics come from their own part of the document", data.t.eq(f.sec))
                s = ctx.fresh_u("some_group")
                ctx.oblige("translate: the same groups are excluded everywhere", it.zb(methods.contains(it, q.a["out"], SVal(s, str))) == excluded(s))
                w.add(kind, f.exists[leaf], SInt(VALUE(f.p[leaf])))
            labelled(ctx, it, q.a["labels"], {"service", "instance"}, want_labels, "translate")
        w.sink_queues = queues
        # which part of the document has been gone through
        def done(kind, k):
            if kind in SECTIONS: return F[SECTIONS[kind][0]].done(SECTIONS[kind][1], k)
            seq = it.loop_seqs[-1]
            cur, c = node_of(seq), getattr(seq, "numbers_of", None)
            if kind == "custom" and c is not None: return z3.And(some, z3.Or(CI(ROOT, s0) < CI(ROOT, SEG(c)), z3.And(c == c0, IDX(c0, X) < k))), VALUE(X)
            if kind == "custom" and cur is not None and cur.eq(ROOT): return z3.And(some, CI(ROOT, s0) < k), VALUE(X)
            return None
        w.loops(done)
        args = [Node(w, ROOT), svc, inst]
        if not default: args.append(groups(ctx))
        try:
            r = it.call(w.M.translate_gathered_stats, args, {})
            w.sink_from(r)
        except PyExc as e: ctx.oblige("translate: does not fail", False, repr(e.val)); return
        for kind, key in PLAIN.items():
            if kind in mine: final(ctx, w, kind, KIND(T(key)) == NUM, T(key))
        for kind, (section, leaf) in SECTIONS.items():
            if kind in mine: final(ctx, w, kind, F[section].exists[leaf], F[section].p[leaf])
        if "custom" in mine: final(ctx, w, "custom", some, X)
    return task


def part_of(kind):
    if kind in PLAIN or kind == "custom": return "service"
    return kind if kind.startswith("ekosis_endpoint") else "queues"


def final(ctx, w, kind, exists, p):
    ctx.oblige(f"{kind}: every number documented is given exactly once, and nothing else", w.count(kind) == z3.If(exists, 1, 0))
    ctx.oblige(f"{kind}: with its value", z3.Implies(exists, w.value(kind) == VALUE(p)))


def _at(w, path):
    t = ROOT
    for k in path: t = w.ch(t, w.it.term(k))
    return t


def node_of(seq): return seq.t if isinstance(seq, Node) else getattr(seq, "node", None)
