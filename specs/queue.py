"""Contracts of the paginated queue (C01, C02, C03).

Abstract view of a queue: one sequence  front page ++ table rows ++ back page  of (key, data) with
pairwise distinct keys.  Ghost state: idx(k), the position of key k in the view."""
import json
import z3
from dv.core import *
from dv.interp import Interp, BoundMethod, ModelFn
from dv import methods
from dv.loops import LoopSpec
from dv.methods import forall_range
from . import sqlmodel
from .sqlmodel import Rows, Db, Session, bytes_of, key_of, str_of_key

loads = z3.Function("parse", U, U)
OPS = "pop push push_dup size is_empty inspect_span_key pop_span_key get_first_x_span_keys clear shut_down reopen".split()


def real():
    from ekosis.queues import paginated_queue as pq
    from ekosis.data_transfer_objects import SpanKey
    return pq, SpanKey


def base_interp(ctx):
    pq, SpanKey = real()
    it = Interp(ctx)
    k = z3.Const("k!key", U)
    ctx.assume(z3.ForAll([k], key_of(bytes_of(k)) == k, patterns=[bytes_of(k)]))
    it.attr_models[(SpanKey, "bytes")] = lambda it, v: it.val(bytes_of(it.term(v)), bytes)
    it.attr_models[(SpanKey, "__eq__")] = lambda it, a, b: SBool(it.term(a) == it.term(b)) if _isk(b, SpanKey) else False
    it.attr_models[(SpanKey, "__str__")] = lambda it, v: it.val(str_of_key(it.term(v)), str)
    it.models[SpanKey.from_bytes.__func__] = lambda it, cls, b: it.val(key_of(it.term(b)), SpanKey)
    it.models[json.loads] = lambda it, s: it.val(z3.Function("json_loads", U, U)(it.term(s)), dict)
    return it


def _isk(v, SpanKey): return isinstance(v, SVal) and v.cls is SpanKey


class Payload:
    """Stands for the queued pydantic type: T(**json.loads(s)) is the function parse_T of s."""


def make_payload():
    import pydantic
    class Payload(pydantic.BaseModel):
        x: int = 0
    return Payload


def increasing(ctx, n, rid):
    a, b = z3.Ints("a! b!")
    q = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), rid(a) < rid(b)), patterns=[z3.MultiPattern(rid(a), rid(b))])
    ctx.ranged[q.get_id()] = q
    ctx.assume(q)


class World:
    """Arbitrary queue state satisfying the representation invariant."""
    def __init__(self, ctx, alias, sub=None):
        self.ctx = ctx
        pq, SpanKey = real()
        self.pq, self.SpanKey = pq, SpanKey
        it = self.it = base_interp(ctx)
        self.T = make_payload()
        it.models[self.T] = self.new_T
        f = lambda nm, s: ctx.fresh_fn(nm, I, s)
        self.nF, self.nD, self.nB, self.ps = (ctx.fresh_int(x) for x in ("nF", "nD", "nB", "page_size"))
        self.keyF, self.datF, self.keyD, self.datD, self.keyB, self.datB = (f(x, U) for x in ("keyF", "datF", "keyD", "datD", "keyB", "datB"))
        self.ridD = f("ridD", I)
        self.idx = ctx.fresh_fn("idx", U, I)
        ctx.assume(z3.And(self.nF >= 0, self.nD >= 0, self.nB >= 0, self.ps >= 1))
        if alias: ctx.assume(z3.And(self.nD == 0, self.nB == 0))
        for n, key, off in ((self.nF, self.keyF, 0), (self.nD, self.keyD, self.nF), (self.nB, self.keyB, self.nF + self.nD)):
            ctx.assume(forall_range(ctx, z3.IntVal(0), n, lambda j: z3.And(self.idx(key(j)) == j + off, key(j) != NONE)))
        increasing(ctx, self.nD, self.ridD)
        ctx.small += [self.nF, self.nD, self.nB, self.ps]
        self.N = z3.simplify(self.nF + self.nD + self.nB)
        rows = Rows(self.nD, self.ridD, self.keyD, self.datD)
        # an empty store while the object is built, so that only its field layout is taken from it
        self.db = Db(ctx, rows=sqlmodel.EMPTY(), committed=sqlmodel.EMPTY(), world=self)
        sqlmodel.install(it, self, self.db)
        q = self.q = it.call(pq.PaginatedQueue, [SVal(ctx.fresh_u("path"), str), self.T, SInt(self.ps)], {})
        known = {"file_path", "connection_string", "database_engine", "queued_type", "page_size", "front_page", "back_page", "session"}
        if set(q.fields) != known: raise Unsupported(f"queue has fields {sorted(set(q.fields) ^ known)} outside the contract")
        self.db.set("rows", rows); self.db.set("committed", rows)
        front = q.fields["front_page"]
        self.fill(front, self.nF, self.keyF, self.datF, z3.IntVal(0))
        if alias: q.fields["back_page"] = front
        else:
            back = it.call(pq.QueuePage, [self.T], {})
            self.fill(back, self.nB, self.keyB, self.datB, self.nF + self.nD)
            q.fields["back_page"] = back

    def new_T(self, it, **kw):
        star = kw.get("**")
        if star is None: raise Unsupported("queued type built from keywords")
        return it.val(loads(star.val.z), self.T)

    def db_pos(self, it, rows, k):
        ctx = self.ctx
        if ctx.choose("row_present"):
            p = ctx.fresh_int("row")
            ctx.assume(z3.And(p >= 0, p < rows.n, rows.key(p) == k))
            if ctx._check() == z3.unsat: raise PathEnd()
            return p
        ctx.assume(forall_range(ctx, z3.IntVal(0), rows.n, lambda j: rows.key(j) != k))
        if ctx._check() == z3.unsat: raise PathEnd()
        return None

    def parts(self, page):
        lists = [v for v in page.fields.values() if isinstance(v, MList)]
        dicts = [v for v in page.fields.values() if isinstance(v, MDict)]
        if len(lists) != 1 or len(dicts) > 1 or len(page.fields) != 1 + len(lists) + len(dicts):
            raise Unsupported("page representation outside the contract")
        return lists[0], (dicts[0] if dicts else None)

    def entry(self, k, d):
        return Obj(self.ctx, self.pq.PageEntry, {"span_key": SVal(k, self.SpanKey), "object_string": SVal(d, str)}, frozen=True)

    def fill(self, page, n, key, dat, off):
        l, d = self.parts(page)
        l.items, l.n, l.get = None, n, lambda i: self.entry(key(i), dat(i))
        if d is not None:
            pos = lambda k: self.idx(k) - off
            d.d = None
            d.dom = lambda k: z3.And(pos(k) >= 0, pos(k) < n, key(pos(k)) == k)
            d.val = lambda k: self.entry(key(pos(k)), dat(pos(k)))

    # -- abstract view of the entry state
    def K(self, i): return z3.If(i < self.nF, self.keyF(i), z3.If(i < self.nF + self.nD, self.keyD(i - self.nF), self.keyB(i - self.nF - self.nD)))
    def D(self, i): return z3.If(i < self.nF, self.datF(i), z3.If(i < self.nF + self.nD, self.datD(i - self.nF), self.datB(i - self.nF - self.nD)))
    def mem(self, k): return z3.And(self.idx(k) >= 0, self.idx(k) < self.N, self.K(self.idx(k)) == k)

    # -- obligations on the exit state
    def page_view(self, page):
        l, d = self.parts(page)
        methods.symbolize(self.it, l)
        return l, d

    def check(self, tag, N2, K2, D2, idx2, rows=None):
        """front' ++ rows' ++ back' == (N2, K2, D2); page indexes agree with their lists."""
        it, ctx, q = self.it, self.ctx, self.q
        fp, bp = q.fields["front_page"], q.fields["back_page"]
        rows = rows or self.db.rows()
        fl, fd = self.page_view(fp)
        nf = fl.n
        alias = fp is bp
        if alias:
            ctx.oblige(tag + ": table empty when the two pages are one", rows.n == 0, rep=True)
            nb, bl = z3.IntVal(0), None
        else:
            bl, bd = self.page_view(bp)
            nb = bl.n
        nd = rows.n
        ctx.oblige(tag + ": number of entries", z3.And(nf >= 0, nd >= 0, nb >= 0, nf + nd + nb == N2))
        i = ctx.fresh_int("i")
        kf = lambda g, j: (lambda e: (it.term(e.fields["span_key"]), it.term(e.fields["object_string"])))(g(j))
        for nm, lst, n, off in (("front page", fl, nf, 0), ("back page", bl, nb, nf + nd)):
            if lst is None: continue
            try: k, d = kf(lst.get, i)
            except methods.EmptyGet:
                continue
            ctx.oblige(f"{tag}: {nm} holds the right entries", z3.Implies(z3.And(i >= 0, i < n), z3.And(k == K2(z3.simplify(i + off)), d == D2(z3.simplify(i + off)))))
        if not z3.is_int_value(z3.simplify(nd)) or z3.simplify(nd).as_long() != 0:
            ctx.oblige(f"{tag}: table holds the right entries", z3.Implies(z3.And(i >= 0, i < nd), z3.And(rows.key(i) == K2(i + nf), rows.data(i) == D2(i + nf))))
            j = ctx.fresh_int("j")
            ctx.oblige(f"{tag}: table order", z3.Implies(z3.And(i >= 0, i < j, j < nd), rows.rid(i) < rows.rid(j)))
        x = ctx.fresh_u("x")
        for nm, page, lst, off in (("front page", fp, fl, 0), ("back page", bp, bl, nf + nd)):
            if lst is None: continue
            dct = self.parts(page)[1]
            if dct is None: continue
            if not dct.symbolic: methods.dict_symbolize(it, dct)
            pos = idx2(x) - off
            try:
                isin = z3.And(pos >= 0, pos < lst.n, kf(lst.get, pos)[0] == x)
            except methods.EmptyGet: isin = z3.BoolVal(False)
            ctx.oblige(f"{tag}: {nm} index has exactly the keys of the page", dct.dom(x) == isin, rep=True)
            try: v = dct.val(x)
            except methods.EmptyGet: continue
            ctx.oblige(f"{tag}: {nm} index maps each key to its entry", z3.Implies(z3.And(isin, dct.dom(x)),
                       z3.And(it.term(v.fields["span_key"]) == x, it.term(v.fields["object_string"]) == kf(lst.get, pos)[1])), rep=True)
        # uncommitted work
        s = q.fields["session"]
        ctx.oblige(tag + ": nothing left uncommitted", s.st["pending"] is None and self.db.st["committed"] is self.db.rows(), rep=True) if rows is self.db.rows() else None

    def same(self, tag): self.check(tag, self.N, self.K, self.D, self.idx)


def run_op(w, name, args, tag):
    """Calls the real method; returns its value (exceptions fail an obligation)."""
    it = w.it
    try:
        r = it.call(it.getattr(w.q, name), args, {})
        if isinstance(r, Coro): r = it.await_(r)
        return True, r
    except PyExc as e:
        w.ctx.oblige(f"{tag}: raises no exception", False, repr(e.val) + str(getattr(e.val, "fields", "")))
        return False, None


def parsed(it, dat): return loads(z3.Function("json_loads", U, U)(dat))


def is_none(it, r):
    v = it.is_(r, None)
    return v if isinstance(v, bool) else v.z


def task(op):
    def go(ctx):
        alias = ctx.choose("one_page")
        w = World(ctx, alias)
        it, tag = w.it, op
        if op == "pop":
            ok, r = run_op(w, "pop", [], tag)
            if not ok: return
            if ctx.branch(w.N == 0):
                ctx.oblige(tag + ": empty queue yields nothing", is_none(it, r)); w.same(tag); return
            ctx.oblige(tag + ": returns the oldest entry", z3.And(it.term(r) == parsed(it, w.D(z3.IntVal(0)))))
            w.check(tag, w.N - 1, lambda i: w.K(i + 1), lambda i: w.D(i + 1), lambda k: w.idx(k) - 1)
        elif op in ("push", "push_dup"):
            k0 = ctx.fresh_u("key")
            o = SVal(ctx.fresh_u("obj"), w.T)
            ctx.assume(z3.And(k0 != NONE, o.z != NONE))
            ctx.assume(w.mem(k0) if op == "push_dup" else z3.Not(w.mem(k0)))
            ok, r = run_op(w, "push", [o, SVal(k0, w.SpanKey)], tag)
            if not ok: return
            ctx.oblige(tag + ": returns the key", it.term(r) == k0)
            if op == "push_dup": w.same(tag); return
            d0 = z3.Function("dump_json", U, U)(o.z)
            w.check(tag, w.N + 1, lambda i: z3.If(i < w.N, w.K(i), k0), lambda i: z3.If(i < w.N, w.D(i), d0), lambda k: z3.If(k == k0, w.N, w.idx(k)))
        elif op in ("size", "is_empty"):
            ok, r = run_op(w, op, [], tag)
            if not ok: return
            if op == "size": ctx.oblige(tag + ": number of entries", it.z(r) == w.N)
            else:
                t = it.eq(r, True)
                ctx.oblige(tag + ": true exactly when empty", (w.N == 0) == (t if isinstance(t, bool) else t.z))
            w.same(tag)
        elif op in ("inspect_span_key", "pop_span_key"):
            k0 = ctx.fresh_u("key")
            ctx.assume(k0 != NONE)
            ok, r = run_op(w, op, [SVal(k0, w.SpanKey)], tag)
            if not ok: return
            if not ctx.branch(w.mem(k0)):
                ctx.oblige(tag + ": unknown key yields nothing", is_none(it, r)); w.same(tag); return
            p = w.idx(k0)
            ctx.oblige(tag + ": returns the entry stored under the key", it.term(r) == parsed(it, w.D(p)))
            if op == "inspect_span_key": w.same(tag); return
            w.check(tag, w.N - 1, lambda i: z3.If(i < p, w.K(i), w.K(i + 1)), lambda i: z3.If(i < p, w.D(i), w.D(i + 1)),
                    lambda k: z3.If(k == k0, -1, z3.If(w.idx(k) > p, w.idx(k) - 1, w.idx(k))))
        elif op == "get_first_x_span_keys":
            x = ctx.fresh_int("how_many")
            ctx.assume(x >= 0)
            ok, r = run_op(w, op, [SInt(x)], tag)
            if not ok: return
            l = methods.to_list(it, r); methods.symbolize(it, l)
            ctx.oblige(tag + ": number of keys reported", l.n == z3.If(x < w.N, x, w.N))
            i = ctx.fresh_int("i")
            if ctx.branch(z3.And(i >= 0, i < l.n)):
                ctx.oblige(tag + ": reports the keys in queue order", it.term(l.get(i)) == str_of_key(w.K(i)))
            else: w.same(tag)
        elif op == "clear":
            ok, r = run_op(w, op, [], tag)
            if ok: w.check(tag, z3.IntVal(0), w.K, w.D, lambda k: z3.IntVal(-1))
        elif op in ("shut_down", "reopen"):
            ok, r = run_op(w, "shut_down", [], "shut_down")
            if not ok: return
            c = w.db.st["committed"]
            i = ctx.fresh_int("i")
            f1 = c.n == w.N
            f2 = z3.Implies(z3.And(i >= 0, i < w.N), z3.And(c.key(i) == w.K(i), c.data(i) == w.D(i)))
            j = ctx.fresh_int("j")
            f3 = z3.Implies(z3.And(i >= 0, i < j, j < w.N), c.rid(i) < c.rid(j))
            if op == "shut_down":
                ctx.oblige("shut_down: every entry is stored", f1)
                ctx.oblige("shut_down: stored entries keep key, data and order", f2)
                ctx.oblige("shut_down: stored order is the record order", f3)
    return go


def task_reopen(ctx):
    """Opening a file whose table holds (n, key, data) gives exactly that queue."""
    w = World(ctx, True)           # supplies names; its pages are not used
    it = w.it
    n, ps = ctx.fresh_int("n"), ctx.fresh_int("ps2")
    rid, key, dat, idx = ctx.fresh_fn("rid", I, I), ctx.fresh_fn("key", I, U), ctx.fresh_fn("dat", I, U), ctx.fresh_fn("idx2", U, I)
    ctx.assume(z3.And(n >= 0, ps >= 1))
    ctx.assume(forall_range(ctx, z3.IntVal(0), n, lambda j: z3.And(idx(key(j)) == j, key(j) != NONE)))
    ctx.small += [n, ps]
    increasing(ctx, n, rid)
    rows = Rows(n, rid, key, dat)
    w.db.set("rows", rows); w.db.set("committed", rows)
    try:
        w.q = it.call(w.pq.PaginatedQueue, [SVal(ctx.fresh_u("path"), str), w.T, SInt(ps)], {})
    except PyExc as e:
        ctx.oblige("reopen: raises no exception", False, repr(e.val)); return
    ctx.oblige("reopen: page size kept", it.z(w.q.fields["page_size"]) == ps)
    w.check("reopen", n, key, dat, idx)
