"""Contracts of PendingQueue (C04): the pending and the error queue of one endpoint or sender, over the
contract of PaginatedQueue."""
import z3
from dv.core import *
from dv.loops import LoopSpec
from . import common as C
from .common import call, key, opaque


class W:
    def __init__(self, ctx):
        from ekosis.queues.pending_queue import PendingQueue
        self.ctx = ctx
        it = self.it = C.interp(ctx)
        self.made = {}
        C.install_queues(it, self.made)
        self.d, self.b = opaque(ctx, "directory", str), opaque(ctx, "basename", str)
        self.ps = ctx.fresh_int("page_size")
        ctx.assume(self.ps >= 1)
        self.q = it.call(PendingQueue, [self.d, self.b, SInt(self.ps)], {})
        if sorted(self.made) != ["error", "pending"] or any(len(v) != 1 for v in self.made.values()): raise Unsupported("not one pending and one error queue")
        self.pq, self.eq = self.made["pending"][0], self.made["error"][0]
        for x in (self.pq, self.eq): x.arbitrary(); ctx.small.append(x.n())
        self.n0 = (self.pq.n(), self.eq.n())
        self.mark = len(ctx.trace)
        self.meta = opaque(ctx, "metadata", dict)
        self.data = opaque(ctx, "payload", None, True)
        self.key = key(ctx)

    def events(self): return [(k, d) for k, d in self.ctx.trace[self.mark:] if "q" in d]

    def run(self, name, *a, **k):
        try: return "ok", call(self.it, self.q, name, *a, **k)
        except PyExc as e: return "raise", e.val

    def is_entry(self, e, cls, key_, data, meta, **more):
        """formula: e is an entry of that class with these fields."""
        it = self.it
        if not (isinstance(e, Obj) and e.cls is cls): return z3.BoolVal(False)
        f = e.fields
        m = f.get("metadata")
        if isinstance(m, C.MDict): okm = z3.BoolVal(not m.symbolic and not m.d) if meta is None else (z3.Not(truthy(meta)) if not m.symbolic and not m.d else z3.BoolVal(False))
        elif m is None or meta is None: okm = z3.BoolVal(False)
        else: okm = it.term(m) == meta
        cs = [it.term(f["span_key"]) == key_, it.term(f["data"]) == data, okm]
        for n, v in more.items(): cs.append(it.z(f[n]) == v if v.sort() == I else it.term(f[n]) == v)
        return z3.And(*cs)


def entries():
    from ekosis.queues import pending_queue as p
    return p.PendingEntry, p.ErrorEntry


def push(which):
    def task(ctx):
        w = W(ctx); it = w.it
        PE, EE = entries()
        if which == "pending":
            r = ctx.fresh_int("retries")
            if ctx.choose("all_arguments"): a, r, m = [w.key, w.data, SInt(r), w.meta], r, w.meta.z
            elif ctx.choose("no_metadata"): a, r, m = [w.key, w.data, SInt(r), None], r, None
            elif ctx.choose("retries_given"): a, m = [w.key, w.data, SInt(r)], None
            else: a, r, m = [w.key, w.data], z3.IntVal(0), None
            how, v = w.run("push_pending", *a)
            ok = lambda e: w.is_entry(e, PE, w.key.z, w.data.z, m, retries=r)
        else:
            reason = opaque(ctx, "reason", str)
            if ctx.choose("all_arguments"): a, m = [w.key, w.data, reason, w.meta], w.meta.z
            elif ctx.choose("no_metadata"): a, m = [w.key, w.data, reason, None], None
            else: a, m = [w.key, w.data, reason], None
            how, v = w.run("push_error", *a)
            ok = lambda e: w.is_entry(e, EE, w.key.z, w.data.z, m, reason=reason.z)
        ctx.oblige("storing does not fail", how == "ok", repr(v) + str(getattr(v, "fields", "")))
        if how != "ok": return
        ev = w.events()
        one = [k for k, d in ev] == ["push"] and ev[0][1]["q"] == which
        ctx.oblige("the item is stored once, in that queue only", one, repr(ev))
        if not one: return
        ctx.oblige("it is stored under its own key", it.term(ev[0][1]["key"]) == w.key.z)
        ctx.oblige("it is stored with its key, payload, metadata and " + ("retry count" if which == "pending" else "reason"), ok(ev[0][1]["obj"]))
    return task


def pop(ctx):
    w = W(ctx)
    how, v = w.run("pop")
    ctx.oblige("taking does not fail", how == "ok", repr(v))
    if how != "ok": return
    ev = w.events()
    if not ev: ctx.oblige("nothing is taken only from an empty pending queue", z3.And(w.n0[0] == 0, z3.BoolVal(v is None))); return
    ok = len(ev) == 1 and ev[0][0] == "pop" and ev[0][1]["q"] == "pending"
    ctx.oblige("one item is taken, from the pending queue", ok, repr(ev))
    if ok: ctx.oblige("the item is returned as it was stored", v is ev[0][1]["entry"])


def by_key(name, q, op):
    """looking at and taking one item of one queue: gives its payload, or nothing."""
    def task(ctx):
        w = W(ctx)
        how, v = w.run(name, w.key)
        ctx.oblige("does not fail", how == "ok", repr(v))
        if how != "ok": return
        ev = w.events()
        ok = len(ev) == 1 and ev[0][0] == op and ev[0][1]["q"] == q
        ctx.oblige("acts once on that queue and no other", ok, repr(ev))
        if not ok: return
        d = ev[0][1]
        ctx.oblige("acts on the given key", w.it.term(d["key"]) == w.key.z)
        if d["entry"] is None: ctx.oblige("an absent key gives nothing", v is None)
        else: ctx.oblige("a present key gives its payload, whatever it is", w.it.term(v) == w.it.term(d["entry"].fields["data"]))
    return task


def sizes(ctx):
    w = W(ctx); it = w.it
    p, e = w.n0
    for name, want in (("get_pending_size", p), ("get_error_size", e)):
        how, v = w.run(name)
        ctx.oblige("sizes: do not fail", how == "ok")
        if how == "ok": ctx.oblige(f"sizes: {name} is the number of items there", it.z(v) == want)
    how, v = w.run("has_pending")
    ctx.oblige("pending items are reported exactly when there are some", how == "ok" and it.zb(v) == (p > 0))
    how, v = w.run("get_sizes")
    ok = how == "ok" and isinstance(v, C.MDict) and not v.symbolic and set(v.d) == {"pending", "error"}
    ctx.oblige("both sizes are given", ok)
    if ok: ctx.oblige("both sizes are right", z3.And(it.z(v.d["pending"]) == p, it.z(v.d["error"]) == e))
    ctx.oblige("asking for sizes changes nothing", not w.events())


def others(ctx):
    w = W(ctx)
    how, v = w.run("clear_error_queue")
    ev = w.events()
    ctx.oblige("clearing empties the error queue only", how == "ok" and [(k, d["q"]) for k, d in ev] == [("clear", "error")], repr(ev))
    w.mark = len(ctx.trace)
    x = ctx.fresh_int("how_many")
    how, v = w.run("get_first_x_error_span_keys", SInt(x))
    ev = w.events()
    ok = how == "ok" and [(k, d["q"]) for k, d in ev] == [("first", "error")]
    ctx.oblige("listing asks the error queue", ok, repr(ev))
    if ok: ctx.oblige("the oldest keys of the error queue are listed, as many as asked for", z3.And(w.it.z(ev[0][1]["x"]) == x, w.it.term(v) == ev[0][1]["result"].z))
    w.mark = len(ctx.trace)
    how, v = w.run("shut_down")
    ev = w.events()
    ctx.oblige("shutting down closes both queues once", how == "ok" and sorted((k, d["q"]) for k, d in ev) == [("close", "error"), ("close", "pending")], repr(ev))


def move_one(ctx):
    w = W(ctx); it = w.it
    PE, _ = entries()
    how, v = w.run("move_one_error_to_pending", w.key)
    ctx.oblige("moving does not fail", how == "ok", repr(v) + str(getattr(v, "fields", "")))
    if how != "ok": return
    ev = w.events()
    ok = bool(ev) and ev[0][0] == "popk" and ev[0][1]["q"] == "error"
    ctx.oblige("the item is taken out of the error queue", ok, repr(ev))
    if not ok: return
    ctx.oblige("the item of the given key is taken", it.term(ev[0][1]["key"]) == w.key.z)
    e = ev[0][1]["entry"]
    if e is None:
        ctx.oblige("a key that is not in the error queue moves nothing", len(ev) == 1, repr(ev))
        ctx.oblige("a key that is not in the error queue is reported", v is None)
        return
    moved(w, e, ev[1:])
    ctx.oblige("the moved payload is returned", it.term(v) == it.term(e.fields["data"]))


def moved(w, e, ev):
    ctx, it = w.ctx, w.it
    one = [k for k, d in ev] == ["push"] and ev[0][1]["q"] == "pending"
    ctx.oblige("each item taken from the error queue is stored once in the pending queue", one, repr(ev))
    if not one: return
    f = e.fields
    ctx.oblige("under the same key", it.term(ev[0][1]["key"]) == it.term(f["span_key"]))
    ctx.oblige("with the same key, payload and metadata, and no retries", w.is_entry(ev[0][1]["obj"], entries()[0], it.term(f["span_key"]), it.term(f["data"]), it.term(f["metadata"]), retries=z3.IntVal(0)))


def move_all(ctx):
    w = W(ctx); it = w.it
    st = {}
    def on_head(it, fr, K): st["mark"], st["n"] = len(ctx.trace), w.eq.n()
    def on_back(it, fr, K):
        ev = [(k, d) for k, d in ctx.trace[st["mark"]:] if "q" in d]
        ok = bool(ev) and ev[0][0] == "pop" and ev[0][1]["q"] == "error"
        ctx.oblige("each round takes the oldest item of the error queue", ok, repr(ev))
        if ok: moved(w, ev[0][1]["entry"], ev[1:])
        ctx.oblige("the error queue shrinks in each round", z3.And(st["n"] > w.eq.n(), w.eq.n() >= 0))
    def nonneg(it, k, v, loc): return v.z >= 0 if loc.kind == "ext" and loc.name == "n" and isinstance(v, SInt) else None
    def down(it, k, v, loc): return v.z + k == w.n0[1] if loc.kind == "ext" and loc.name == "n" and loc.obj is w.eq and isinstance(v, SInt) else None
    it.loop_spec = LoopSpec(templates=[nonneg, down], exact=True, on_head=on_head, on_back=on_back)
    how, v = w.run("move_all_error_to_pending")
    ctx.oblige("moving does not fail", how == "ok", repr(v) + str(getattr(v, "fields", "")))
    if how != "ok": return
    ctx.oblige("the error queue is empty afterwards", w.eq.n() == 0)
    if "mark" not in st: raise Unsupported("moving is not a loop over the error queue")
    ctx.oblige("nothing else is done to the queues", not [1 for k, d in ctx.trace[st["mark"]:] if "q" in d])
