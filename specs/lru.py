"""Contracts of LRUCache (C13): a ring of nodes read from the head, the filled ones first, and an index."""
import z3
from dv.core import *
from dv.interp import Interp, BoundMethod
from dv.loops import LoopSpec, Closed

FIELDS = ("empty", "next", "previous", "key", "value")
AT, IDX = z3.Function("ring_at", I, U), z3.Function("ring_idx", U, I)


def mods():
    from ekosis.cacheing import lru_cache, cached_item
    return lru_cache.LRUCache, cached_item.LRUCachedItem


class FieldFn:
    """One field of all nodes: a function of the node."""
    def __init__(self, get): self.get = get
    def put(self, x, v):
        g = self.get
        return FieldFn(lambda y: z3.If(y == x, v, g(y)))


class Heap(Ext):
    """The nodes' fields."""
    def install(self, it):
        Node = mods()[1]
        for f in FIELDS:
            it.attr_models[(Node, f)] = lambda it, n, f=f: self.read(it, f, n.z)
            it.setattr_models[(Node, f)] = lambda it, n, v, f=f: self.set(f, self.st[f].put(n.z, self.enc(it, f, v)))
        def new(it, *a, **k):
            n = SVal(self.ctx.fresh_u("node"), Node)
            self.ctx.assume(z3.And(n.z != NONE, IDX(n.z) == -1))
            for o in self.st.get("fresh", ()): self.ctx.assume(n.z != o)
            self.set("fresh", self.st.get("fresh", ()) + (n.z,))
            it.call(BoundMethod(it.lookup(Node, "__init__"), n), list(a), k)
            return n
        it.models[Node] = new
    def enc(self, it, f, v):
        if f == "empty":
            if not isinstance(v, (bool, SBool)): raise Unsupported("empty is not a truth value")
            return it.zb(v)
        if f in ("next", "previous"):
            if v is None: return NONE
            if not (isinstance(v, SVal) and v.cls is mods()[1]): raise Unsupported("link to something that is not a node")
        return it.term(v)
    def read(self, it, f, n):
        t = self.st[f].get(n)
        if f == "empty": return SBool(t)
        if f in ("next", "previous"): return SVal(t, mods()[1], True)
        return SVal(t, None, True)


class Index(Ext):
    """dict from key to node."""
    pycls = dict
    def has(self, x): return self.st["dom"](x)
    def node(self, x): return self.st["val"](x)
    def contains_(self, it, k): return SBool(self.has(it.term(k)))
    def len_(self, it): return SInt(self.st["n"])
    def truth(self, it): return self.ctx.branch(self.st["n"] > 0)
    def m_keys(self, it): return self
    def m___len__(self, it): return self.len_(it)
    def m___contains__(self, it, k): return self.contains_(it, k)
    def getitem_(self, it, k):
        if not self.ctx.branch(self.has(it.term(k))): it.raise_py(KeyError, k)
        return SVal(self.node(it.term(k)), mods()[1])
    def m_get(self, it, k, default=None):
        if not self.ctx.branch(self.has(it.term(k))): return default
        return SVal(self.node(it.term(k)), mods()[1])
    def setitem_(self, it, k, v):
        if not (isinstance(v, SVal) and v.cls is mods()[1]): raise Unsupported("index entry that is not a node")
        x, d, g, n = it.term(k), self.st["dom"], self.st["val"], self.st["n"]
        self.set("n", z3.simplify(z3.If(d(x), n, n + 1)))
        self.set("dom", lambda y: z3.Or(y == x, d(y)))
        self.set("val", lambda y: z3.If(y == x, v.z, g(y)))
    def delitem_(self, it, k):
        x, d = it.term(k), self.st["dom"]
        if not self.ctx.branch(d(x)): it.raise_py(KeyError, k)
        self.set("n", z3.simplify(self.st["n"] - 1))
        self.set("dom", lambda y: z3.And(y != x, d(y)))
    def m_pop(self, it, k, *default):
        x = it.term(k)
        if not self.ctx.branch(self.has(x)):
            if default: return default[0]
            it.raise_py(KeyError, k)
        r = SVal(self.node(x), mods()[1])
        self.delitem_(it, k)
        return r
    def m_clear(self, it):
        self.set("n", z3.IntVal(0)); self.set("dom", lambda y: z3.BoolVal(False))


class State:
    """Symbolic cache in an arbitrary state satisfying the representation invariant."""
    def __init__(self, ctx):
        LRUCache, Node = mods()
        self.ctx = ctx
        it = self.it = Interp(ctx)
        self.heap = h = Heap(ctx)
        h.install(it)
        self.maxn = ctx.fresh_int("max_size")
        ctx.assume(self.maxn >= 1)
        for f in FIELDS:
            fn = z3.Function("node_" + f, U, B if f == "empty" else U)
            h.st[f] = FieldFn(fn)
        self.fn = {f: h.st[f].get for f in FIELDS}
        self.cache = o = it.call(LRUCache, [SInt(self.maxn)], {})
        if set(o.fields) != {"max_size", "_cached_items", "head"}: raise Unsupported("the cache has other fields than the contract")
        self.fresh_ok = o.fields["head"] is None and isinstance(o.fields["_cached_items"], MDict) and not o.fields["_cached_items"].d and not o.fields["_cached_items"].symbolic
        if not self.fresh_ok: raise Unsupported("a new cache has another form than the contract")
        ctx.oblige("a new cache has the capacity given", it.z(it.getattr(o, "max_size")) == self.maxn)
        self.index = ix = Index(ctx, dom=lambda x: z3.BoolVal(False), val=lambda x: NONE, n=z3.IntVal(0))
        o.fields["_cached_items"] = ix
        if ctx.choose("never_used"):
            self.r = self.m = z3.IntVal(0)
            self.case = "new"
            dom, val = (lambda x: z3.BoolVal(False)), (lambda x: NONE)
            self.dom0 = dom
            ctx.assume(z3.ForAll([x0()], z3.Or(IDX(x0()) == -1, False), patterns=[IDX(x0())]))
            return
        self.case = "used"
        r, m = ctx.fresh_int("ring"), ctx.fresh_int("filled")
        self.r, self.m = r, m
        ctx.small += [r, self.maxn]
        ctx.assume(z3.And(r >= 1, m >= 0, m <= r, r <= self.maxn))
        dom, val = z3.Function("indexed", U, B), z3.Function("node_of", U, U)
        self.dom0, self.val0 = dom, val
        F = self.fn
        i, x = z3.Int("i!r"), x0()
        ring = z3.And(IDX(x) >= 0, IDX(x) < r, AT(IDX(x)) == x)
        A = ctx.assume
        A(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), z3.And(IDX(AT(i)) == i, AT(i) != NONE)), patterns=[AT(i)]))
        A(z3.ForAll([x], z3.Implies(z3.And(IDX(x) >= 0, IDX(x) < r), AT(IDX(x)) == x), patterns=[IDX(x)]))
        A(z3.ForAll([x], z3.Implies(ring, F["next"](x) == AT(z3.If(IDX(x) + 1 == r, 0, IDX(x) + 1))), patterns=[F["next"](x)]))
        A(z3.ForAll([x], z3.Implies(ring, F["previous"](x) == AT(z3.If(IDX(x) == 0, r - 1, IDX(x) - 1))), patterns=[F["previous"](x)]))
        A(z3.ForAll([x], z3.Implies(ring, F["empty"](x) == (IDX(x) >= m)), patterns=[F["empty"](x)]))
        A(z3.ForAll([x], z3.Implies(z3.And(ring, IDX(x) < m), z3.And(dom(F["key"](x)), val(F["key"](x)) == x)), patterns=[F["key"](x)]))
        A(z3.ForAll([x], z3.Implies(dom(x), z3.And(IDX(val(x)) >= 0, IDX(val(x)) < m, AT(IDX(val(x))) == val(x), F["key"](val(x)) == x, val(x) != NONE)), patterns=[val(x)]))
        A(z3.ForAll([x], z3.Implies(dom(x), z3.And(IDX(val(x)) >= 0, IDX(val(x)) < m)), patterns=[dom(x)]))
        ix.st.update(dom=lambda y: dom(y), val=lambda y: val(y), n=m)
        o.fields["head"] = SVal(AT(z3.IntVal(0)), Node)

    # entries of the cache before the operation, most recently used first
    def key(self, i): return self.fn["key"](AT(i))
    def value(self, i): return self.fn["value"](AT(i))
    def has(self, k): return z3.BoolVal(False) if self.case == "new" else self.dom0(k)
    def pos(self, k): return IDX(self.val0(k))

    def loops(self):
        """Walks along the ring: a node variable that moves on with each iteration; fields of the nodes
        passed so far set to a constant."""
        st = self
        def closed(it, l, k, outs):
            v = l.read()
            Node = mods()[1]
            if isinstance(v, SVal) and v.cls is Node and l.kind == "dict":
                if not it.ctx.prove_quick(v.z == AT(z3.IntVal(0))): return None
                at = lambda K: SVal(AT(st.wrap(K)), Node)
                return Closed(at, lambda it, a, K: z3.BoolVal(False) if not isinstance(a, SVal) else a.z == AT(st.wrap(K)))
            if l.kind == "ext" and isinstance(v, FieldFn):
                consts = []
                for o in outs:
                    a = o.after.get(("ext", id(l.obj), l.name))
                    if a is None: return None
                    cs = [z3.simplify(a.get(AT(x))) for x in (k, st.wrap(k))]
                    consts.append(cs[0] if is_const(cs[0]) else cs[1])
                if not consts or any(not c.eq(consts[0]) for c in consts) or not is_const(consts[0]): return None
                c, g = consts[0], v.get
                at = lambda K: FieldFn(lambda y: z3.If(z3.And(IDX(y) >= 0, IDX(y) < K), c, g(y)))
                def same(it, a, K):
                    y = it.ctx.fresh_u("y")
                    return a.get(y) == at(K).get(y)
                return Closed(at, same)
            return None
        self.it.loop_spec = LoopSpec(closed=closed)

    def wrap(self, K):
        """Position K of the ring (K <= m <= r: position r is position 0 again)."""
        return z3.simplify(z3.If(K == self.r, z3.IntVal(0), K))

    # ---- postconditions
    def check(self, m2, key2, value2, at2=None, r2=None):
        """The cache now holds exactly entries (key2(i), value2(i)) for i < m2, most recently used first."""
        ctx, it, o, h = self.ctx, self.it, self.cache, self.heap
        Node = mods()[1]
        if set(o.fields) != {"max_size", "_cached_items", "head"}: raise Unsupported("the operation adds fields")
        ix, head = o.fields["_cached_items"], o.fields["head"]
        ctx.oblige("the capacity is unchanged", it.z(o.fields["max_size"]) == self.maxn)
        if isinstance(ix, MDict) and not ix.symbolic and not ix.d:
            ix = Index(ctx, dom=lambda x: z3.BoolVal(False), val=lambda x: NONE, n=z3.IntVal(0))
        if ix is not self.index and not isinstance(ix, Index): raise Unsupported("the index is of another kind")
        f = {n: h.st[n].get for n in FIELDS}
        m2 = z3.simplify(m2)
        ctx.oblige("no more entries than the capacity", m2 <= self.maxn)
        ctx.oblige("the number of entries is right", ix.st["n"] == m2, rep=False)
        x = ctx.fresh_u("some_key")
        if head is None:
            ctx.oblige("an empty cache has no entries", z3.And(m2 == 0, z3.Not(ix.has(x))))
            return
        if not (isinstance(head, SVal) and head.cls is Node): raise Unsupported("head is not a node")
        if at2 is None: at2, r2 = AT, self.r
        hd = head.z
        nt = lambda name, c: ctx.oblige(name, c, rep=True)
        i = ctx.fresh_int("i")
        rng = z3.And(i >= 0, i < r2)
        nt("ring: the head is the first node", z3.And(hd == at2(z3.IntVal(0)), hd != NONE, r2 >= 1, r2 <= self.maxn, m2 <= r2))
        nt("ring: each node is followed by the next", z3.Implies(rng, f["next"](at2(i)) == at2(z3.If(i + 1 == r2, z3.IntVal(0), i + 1))))
        nt("ring: each node knows its predecessor", z3.Implies(rng, f["previous"](at2(i)) == at2(z3.If(i == 0, r2 - 1, i - 1))))
        nt("ring: filled nodes come first", z3.Implies(rng, f["empty"](at2(i)) == (i >= m2)))
        j = ctx.fresh_int("j")
        nt("ring: nodes are distinct", z3.Implies(z3.And(rng, j >= 0, j < r2, i != j), at2(i) != at2(j)))
        flt = z3.And(i >= 0, i < m2)
        ctx.oblige("entries: each holds its key and its last value", z3.Implies(flt, z3.And(f["key"](at2(i)) == key2(i), f["value"](at2(i)) == value2(i))))
        ctx.oblige("index: each entry is found under its key", z3.Implies(flt, z3.And(ix.has(f["key"](at2(i))), ix.node(f["key"](at2(i))) == at2(i))))
        # every indexed key is that of an entry: the witness is the position of the indexed node
        n = ix.node(x)
        w = ctx.fresh_int("w")
        self.position(n, at2, r2, w)
        nt("index: every indexed key is that of an entry", z3.Implies(ix.has(x), z3.And(w >= 0, w < m2, f["key"](n) == x)))

    def position(self, n, at2, r2, w):
        """w is the position of node n in the new ring, if it is in it (inverse of at2)."""
        for inv in self.inverse: self.ctx.assume(inv(n, w))
    inverse = ()


def is_const(c): return z3.is_true(c) or z3.is_false(c) or c.eq(NONE)


def x0(): return z3.Const("x!r", U)


# the new order of the ring, with its inverse
def keep(st):
    st.inverse = (lambda n, w: w == IDX(n),)
    return AT, st.r


def to_front(st, p):
    at = lambda i: AT(z3.If(i == 0, p, z3.If(i <= p, i - 1, i)))
    st.inverse = (lambda n, w: w == z3.If(IDX(n) == p, z3.IntVal(0), z3.If(IDX(n) < p, IDX(n) + 1, IDX(n))),)
    return at, st.r


def to_end(st, p):
    r = st.r
    at = lambda i: AT(z3.If(i == r - 1, p, z3.If(i >= p, i + 1, i)))
    st.inverse = (lambda n, w: w == z3.If(IDX(n) == p, r - 1, z3.If(IDX(n) > p, IDX(n) - 1, IDX(n))),)
    return at, r


def grown(st, new):
    at = lambda i: z3.If(i == 0, new, AT(i - 1))
    st.inverse = (lambda n, w: w == z3.If(n == new, z3.IntVal(0), IDX(n) + 1),)
    return at, z3.simplify(st.r + 1)


def arg(ctx, name):
    return SVal(ctx.fresh_u(name), None, True)


def attempt(st, f):
    try: return ("ok", f())
    except PyExc as e: return ("raise", e.val)


def unchanged(st):
    """Same entries in the same order."""
    if st.case == "new":
        return st.check(z3.IntVal(0), None, None)
    st.check(st.m, st.key, st.value, *keep(st))


def call(st, name, *args):
    return st.it.call(st.it.getattr(st.cache, name), list(args), {})


def lookup(op):
    """Reading: [] / get make the key most recently used; peek and `in` change nothing."""
    def task(ctx):
        st = State(ctx); it = st.it
        k = arg(ctx, "key")
        from dv import methods
        if op == "getitem": how, v = attempt(st, lambda: methods.getitem(it, st.cache, k))
        elif op == "contains": how, v = attempt(st, lambda: methods.contains(it, st.cache, k))
        else:
            d = arg(ctx, "default")
            how, v = attempt(st, lambda: call(st, op, k, d) if ctx.choose("with_default") else call(st, op, k))
        if op == "contains":
            ctx.oblige("membership does not fail", how == "ok")
            if how == "ok": ctx.oblige("a key is a member exactly when present", (z3.BoolVal(v) if isinstance(v, bool) else v.z) == st.has(k.z))
            return unchanged(st)
        if not ctx.branch(st.has(k.z)):
            if op == "getitem": ctx.oblige("an absent key is reported as such", how == "raise" and it.exc_match(v, KeyError))
            else: ctx.oblige("an absent key gives the default", how == "ok" and (z3.Or(it.term(v) == d.z, it.term(v) == NONE)))
            if op != "getitem" and how == "ok" and v is not None and not (isinstance(v, SVal) and v.z.eq(d.z)): ctx.oblige("an absent key gives the default", False)
            return unchanged(st)
        ctx.oblige("a present key is found", how == "ok")
        if how != "ok": return
        p = st.pos(k.z)
        ctx.oblige("a present key gives its value", it.term(v) == st.value(p))
        if op == "peek": return unchanged(st)
        o = lambda i: z3.If(i == 0, p, z3.If(i <= p, i - 1, i))
        st.check(st.m, lambda i: st.key(o(i)), lambda i: st.value(o(i)), *to_front(st, p))
    return task


def setitem(ctx):
    st = State(ctx); it = st.it
    from dv import methods
    k, v = arg(ctx, "key"), arg(ctx, "value")
    how, _ = attempt(st, lambda: methods.setitem(it, st.cache, k, v))
    ctx.oblige("storing does not fail", how == "ok")
    if how != "ok": return
    if st.case == "used" and ctx.branch(st.has(k.z)):
        p = st.pos(k.z)
        o = lambda i: z3.If(i == 0, p, z3.If(i <= p, i - 1, i))
        return st.check(st.m, lambda i: st.key(o(i)), lambda i: z3.If(i == 0, v.z, st.value(o(i))), *to_front(st, p))
    kk, vv = (lambda i: z3.If(i == 0, k.z, st.key(i - 1))), (lambda i: z3.If(i == 0, v.z, st.value(i - 1)))
    m2 = z3.simplify(z3.If(st.m < st.maxn, st.m + 1, st.m))
    hd = st.cache.fields["head"]
    if not isinstance(hd, SVal): raise Unsupported("head")
    if st.heap.st.get("fresh"):
        at, r = grown(st, st.heap.st["fresh"][-1])
    else:
        if st.case == "new": raise Unsupported("no node for the first entry")
        at, r = to_front(st, st.r - 1)
    st.check(m2, kk, vv, at, r)


def removal(op):
    def task(ctx):
        st = State(ctx); it = st.it
        from dv import methods
        k, d = arg(ctx, "key"), arg(ctx, "default")
        if op == "delitem": how, v = attempt(st, lambda: methods.delitem(it, st.cache, k))
        else: how, v = attempt(st, lambda: call(st, "pop_item", k, d))
        if not ctx.branch(st.has(k.z)):
            if op == "delitem": ctx.oblige("removing an absent key does nothing or reports it", how == "ok" or it.exc_match(v, KeyError))
            else: ctx.oblige("an absent key gives the default", how == "ok" and it.term(v) == d.z)
            return unchanged(st)
        ctx.oblige("removing a present key does not fail", how == "ok")
        if how != "ok": return
        p = st.pos(k.z)
        if op != "delitem": ctx.oblige("the removed entry's value is returned", it.term(v) == st.value(p))
        o = lambda i: z3.If(i >= p, i + 1, i)
        st.check(st.m - 1, lambda i: st.key(o(i)), lambda i: st.value(o(i)), *to_end(st, p))
    return task


def pop(ctx):
    st = State(ctx); it = st.it
    how, v = attempt(st, lambda: call(st, "pop"))
    ctx.oblige("taking does not fail", how == "ok")
    if how != "ok": return
    if not ctx.branch(st.m > 0):
        ctx.oblige("an empty cache gives nothing", v is None)
        return unchanged(st)
    ok = isinstance(v, tuple) and len(v) == 2
    ctx.oblige("taking returns a key and its value", ok)
    if not ok: return
    z = z3.IntVal(0)
    ctx.oblige("the most recently used entry is taken", z3.And(it.term(v[0]) == st.key(z), it.term(v[1]) == st.value(z)))
    st.check(st.m - 1, lambda i: st.key(i + 1), lambda i: st.value(i + 1), *to_end(st, z))


def clear(ctx):
    st = State(ctx); it = st.it
    st.loops()
    how, v = attempt(st, lambda: call(st, "clear"))
    ctx.oblige("clearing does not fail", how == "ok", repr(v))
    if how != "ok": return
    at, r = keep(st) if st.case == "used" else (None, None)
    st.check(z3.IntVal(0), lambda i: NONE, lambda i: NONE, at, r)


def listing(op):
    def task(ctx):
        st = State(ctx); it = st.it
        st.loops()
        from dv import methods
        def go():
            r = it.call(it.getattr(st.cache, "__iter__" if op == "iter" else op), [], {}) if op != "len" else methods.seq_len(it, st.cache)
            return r if op == "len" else methods.to_list(it, r)
        how, v = attempt(st, go)
        ctx.oblige("listing does not fail", how == "ok", repr(v))
        if how != "ok": return
        if op == "len":
            ctx.oblige("the length is the number of entries", it.z(v) == st.m)
            return unchanged(st)
        methods.symbolize(it, v)
        ctx.oblige("every entry is listed once", v.n == st.m)
        i = ctx.fresh_int("i")
        ctx.assume(z3.And(i >= 0, i < v.n))
        if st.case == "new": return
        e = v.get(i)
        if op == "items":
            ok = isinstance(e, tuple) and len(e) == 2
            ctx.oblige("entries are listed as pairs", ok)
            if ok: ctx.oblige("entries are listed most recently used first", z3.And(it.term(e[0]) == st.key(i), it.term(e[1]) == st.value(i)))
        else:
            ctx.oblige("entries are listed most recently used first", it.term(e) == (st.value(i) if op == "values" else st.key(i)))
        unchanged(st)
    return task
