"""Contracts of queue management (C18): every endpoint of the two management modules, run on a real handler or
sender with abstract queues, registered among any number of others."""
import z3
from dv.core import *
from dv.interp import MDict
from dv.methods import symbolize
from . import common as C
from .common import AbsQ, key, call, new_T, valid_T, opaque
from .buffered import W
from .errors import endpoint_fn

OTHERS, FIRST = z3.Function("registered_route", U, B), z3.Function("first_error_key", I, U)
MUTATING = ("push", "pop", "popk", "clear", "move_all", "close")


class MQ(AbsQ):
    """Queue whose answer about one key is the same until that key is taken."""
    def look(self, it, k):
        for t, e in self.st.get("seen", ()):
            if t.eq(it.term(k)): return e
        e = None
        if self.ctx.choose("key_queued"):
            e = self.entry(it); e.fields["span_key"] = k
            self.ctx.assume(z3.And(self.n() >= 1, valid_T(e.fields["data"].z)))
        self.set("seen", self.st.get("seen", ()) + ((it.term(k), e),))
        return e
    def m_pop_span_key(self, it, key):
        def go():
            e = self.look(it, key)
            if e is not None:
                self.set("n", SInt(z3.simplify(self.n() - 1)))
                self.set("seen", tuple((t, None if t.eq(it.term(key)) else x) for t, x in self.st["seen"]))
            self.ctx.event("popk", q=self.st["name"], key=key, entry=e)
            return e
        return Coro(go, "pop_span_key")
    def m_inspect_span_key(self, it, key):
        return Coro(lambda: self.look(it, key), "inspect_span_key")
    def m_get_first_x_span_keys(self, it, how_many=1):
        def go():
            x = it.z(how_many)
            return MList(self.ctx, None, z3.If(x < 0, 0, z3.If(x < self.n(), x, self.n())), lambda i: SVal(FIRST(i), str))
        return Coro(go, "get_first_x_span_keys")


class Other(Ext):
    """Any other registered endpoint or sender: touching it at all is a violation."""
    def __getattr__(self, name):
        if name[:2] in ("m_", "g_", "s_"):
            def hit(*a, **k):
                self.ctx.oblige("no other endpoint or sender is touched", False, name[2:])
                raise PathEnd()
            return hit
        raise AttributeError(name)


class World:
    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        w = self.w = W(ctx, kind, accepted=[])
        it = self.it = w.it
        C.install_queues(it, w.made, MQ)
        w.setup()
        w.pq.arbitrary(); w.eq.arbitrary()
        from ekosis.queues.pending_queue import PendingQueue
        def move_all(it, q):
            def go():
                ctx.event("move_all")
                n, m = ctx.fresh_int("moved"), w.eq.n()
                ctx.assume(z3.And(n >= w.pq.n(), n <= w.pq.n() + m))
                w.pq.set("n", SInt(n)); w.eq.set("n", SInt(z3.IntVal(0)))
            return Coro(go, "move_all_error_to_pending")
        it.models[PendingQueue.move_all_error_to_pending] = move_all
        if kind == "handler":
            from ekosis.state_keepers.buffered_handler_keeper import BufferedHandlerKeeper as K
            self.module, add = "ekosis.standard_endpoints.buffered_handler_manager", "add_buffered_handler"
            self.flags = {"receiving": ("pause_receiving", "unpause_receiving", "is_receiving_paused"), "processing": ("pause_processing", "unpause_processing", "is_processing_paused")}
            self.reported = {"receiving": "receiving_paused", "processing": "processing_paused"}
        else:
            from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper as K
            self.module, add = "ekosis.standard_endpoints.buffered_sender_manager", "add_buffered_sender"
            self.flags = {"send_process": ("pause_send_process", "unpause_send_process", "is_send_process_paused")}
            self.reported = {"send_process": "send_process_paused"}
        self.keeper = it.singletons[K] = it.call(K, [], {})
        n0 = len(ctx.oplog)
        it.call(it.getattr(self.keeper, add), [w.h], {})
        puts = [o for o in ctx.oplog[n0:] if o[1] == "set" and o[3] is w.h]
        if len(puts) != 1: raise Unsupported("not kept in one dictionary")
        t = puts[0][0]
        ctx.oblige("registered under its own route key", it.term(puts[0][2]) == w.route.z)
        self.rk = opaque(ctx, "requested_route", str)
        ctx.assume(z3.Implies(OTHERS(self.rk.z), self.rk.z == w.route.z))
        ctx.touch(t)
        t.d, t.order = None, None
        t.dom = lambda x: z3.Or(x == w.route.z, OTHERS(x))
        t.val = lambda x: w.h if ctx.branch(x == w.route.z) else Other(ctx)
        self.before = {}
        for f, (p, u, q) in self.flags.items():
            b = ctx.choose(f + "_paused")
            it.call(it.getattr(w.h, p if b else u), [], {})
            self.before[f] = b
            ctx.oblige(f"{f}: pausing and unpausing take effect", self.flag(f) is b)
        self.mark = len(ctx.trace)
        self.n0 = w.pq.n(), w.eq.n()
        self.known = ctx.branch(self.rk.z == w.route.z)

    def flag(self, f):
        v = self.it.call(self.it.getattr(self.w.h, self.flags[f][2]), [], {})
        return v

    def events(self): return [(k, d) for k, d in self.ctx.trace[self.mark:] if k in MUTATING]


def is_none(v): return v is None


def endpoint(kind, op):
    def task(ctx):
        x = World(ctx, kind)
        it, w = x.it, x.w
        fn, T = endpoint_fn(x.module, f"eco.buffered_{kind}.{op}")
        sk = key(ctx, "item")
        fields = {"queue_route_key": x.rk}
        if "span_key" in T.model_fields: fields["span_key"] = sk
        if set(fields) != set(T.model_fields): raise Unsupported("the request has other fields than the contract")
        try: r = it.await_(it.call(fn, [], {"dto": Obj(ctx, T, fields)}))
        except PyExc as e:
            ctx.oblige(f"{op}: does not fail", False, repr(e.val) + str(getattr(e.val, "fields", "")))
            return
        ok = isinstance(r, Obj) and {"queue_data", "request_data", "message"} <= set(r.fields)
        ctx.oblige(f"{op}: answers", ok, repr(r))
        if not ok: return
        qd, rd, msg = r.fields["queue_data"], r.fields["request_data"], r.fields["message"]
        ev = x.events()
        now = {f: x.flag(f) for f in x.flags}
        ctx.oblige(f"{op}: the answer has a message", msg is not None)
        if not x.known:
            ctx.oblige(f"{op}: naming an unknown one is reported as such", qd is None and rd is None, repr(qd))
            ctx.oblige(f"{op}: naming an unknown one changes nothing", not ev and now == x.before, repr([k for k, d in ev]))
            return
        # flags
        words = op.split(".")
        want = dict(x.before)
        if words[-1] in ("pause", "unpause"):
            for f in x.flags:
                if words[0] in (f, "all"): want[f] = words[-1] == "pause"
        repro = "reprocess" in words
        if not repro: ctx.oblige(f"{op}: exactly the asked for flags change", now == want, f"{x.before} -> {now}")
        elif "receiving" in now: ctx.oblige(f"{op}: receiving is not changed", now["receiving"] is x.before["receiving"])
        # what happens to the queues
        names = [k for k, d in ev]
        absent = False
        entry = None
        if op in ("errors.pop_request", "errors.reprocess.one"):
            pops = [d for k, d in ev if k == "popk"]
            ok = len(pops) == 1 and pops[0]["q"] == "error"
            if not ok:
                seen = [e for t, e in w.eq.st.get("seen", ()) if t.eq(sk.z)]
                ok = seen == [None] and not ev
                ctx.oblige(f"{op}: the item is taken from the error queue once", ok, repr(names))
                if not ok: return
                absent = True
            else:
                ctx.oblige(f"{op}: exactly the named item is taken", it.term(pops[0]["key"]) == sk.z)
                entry = pops[0]["entry"]; absent = entry is None
            if op == "errors.pop_request" or absent: ctx.oblige(f"{op}: nothing else happens", names in (["popk"], []), repr(names))
            else:
                ok = names == ["popk", "push"] and ev[1][1]["q"] == "pending"
                ctx.oblige(f"{op}: the item is put into the pending queue, nothing else", ok, repr(names))
                if not ok: return
                p, f = ev[1][1], ev[1][1]["obj"].fields
                ctx.oblige(f"{op}: the item is put back under its span key", z3.And(it.term(p["key"]) == sk.z, it.term(f["span_key"]) == sk.z))
                ctx.oblige(f"{op}: the item is put back with its payload", C.same_payload(it, f["data"], entry.fields["data"].z))
                ctx.oblige(f"{op}: the item is put back with its metadata and no retries used", z3.And(C.same_meta(it, f["metadata"], entry.fields["metadata"]), it.z(f["retries"]) == 0))
        elif op == "errors.inspect_request":
            ctx.oblige(f"{op}: looking changes nothing", not ev, repr(names))
            seen = [e for t, e in w.eq.st.get("seen", ()) if t.eq(sk.z)]
            ctx.oblige(f"{op}: the named item is looked up in the error queue", len(seen) == 1)
            if len(seen) != 1: return
            entry = seen[0]; absent = entry is None
        elif op == "errors.clear":
            ctx.oblige(f"{op}: the error queue is cleared, nothing else", names == ["clear"] and ev[0][1]["q"] == "error", repr([(k, d.get("q")) for k, d in ev]))
        elif op == "errors.reprocess.all":
            ctx.oblige(f"{op}: all of the error queue is moved, nothing else", names == ["move_all"], repr(names))
        else: ctx.oblige(f"{op}: the queues are not changed", not ev, repr(names))
        if absent:
            ctx.oblige(f"{op}: an item that is not there is reported as such", qd is None and rd is None, repr((qd, rd)))
            return
        if op == "errors.get_first_10":
            ok = isinstance(qd, MList)
            ctx.oblige(f"{op}: the answer is a list", ok or not isinstance(qd, (Obj, type(None))), repr(qd))
            if not ok: raise Unsupported("list of span keys")
            symbolize(it, qd)
            i = ctx.fresh_int("i")
            n = w.eq.n()
            ctx.oblige(f"{op}: ten keys, or all when there are fewer", qd.n == z3.If(n < 10, n, 10))
            ctx.assume(z3.And(i >= 0, i < qd.n))
            ctx.oblige(f"{op}: the keys at the front of the error queue, in order", it.term(qd.get(i)) == FIRST(i))
            ctx.oblige(f"{op}: no request is reported", rd is None)
            return
        ok = isinstance(qd, Obj) and "database_sizes" in qd.fields and "route_key" in qd.fields
        ctx.oblige(f"{op}: reports on the queue", ok, repr(qd))
        if not ok: return
        ctx.oblige(f"{op}: reports the route key", it.term(qd.fields["route_key"]) == x.rk.z)
        for f, nm in x.reported.items():
            v, got = now[f], qd.fields.get(nm)
            ctx.oblige(f"{op}: reports whether {f} is paused", got is v if isinstance(v, bool) else it.term(got) == it.term(v), f"{got} {v}")
        sz = qd.fields["database_sizes"]
        if not isinstance(sz, Obj): raise Unsupported("sizes")
        for q, a in (("pending", w.pq), ("error", w.eq)):
            ctx.oblige(f"{op}: reports the size of the {q} queue", it.z(sz.fields[q]) == a.n())
        if entry is None: ctx.oblige(f"{op}: no request is reported", rd is None, repr(rd))
        else:
            d = entry.fields["data"].z
            dto = new_T(d)
            t = it.term(rd) if rd is not None else NONE
            ctx.oblige(f"{op}: reports the item", z3.Or(t == dto, t == d, t == z3.Function("dump_dict", U, U)(dto)), repr(rd))
    return task


HANDLER = ["data"] + [f"{a}.{b}" for a in ("receiving", "processing", "all") for b in ("pause", "unpause")]
SENDER = ["data", "send_process.pause", "send_process.unpause"]
ERRORS = ["errors." + x for x in ("get_first_10", "reprocess.all", "clear", "reprocess.one", "pop_request", "inspect_request")]
OPS = [("handler", o) for o in HANDLER + ERRORS] + [("sender", o) for o in SENDER + ERRORS]
