"""Contracts of the buffered request handler and the buffered sender (C05, C06, C07).

The processing loop is cut at its head; every iteration is verified on its own: whatever the popped item,
the result, exception or cancellation at any suspension point and whatever other tasks do meanwhile (pausing,
shutting down), the item has exactly one outcome."""
import asyncio
import z3
from dv.core import *
from dv.interp import ModelFn, MSet
from dv.loops import LoopSpec
from . import common as C
from .common import AbsQ, call, key, opaque, same_meta, same_payload, new_T, valid_T, current_key


TRUSTED = [
    "PaginatedQueue by its contract (proved under C01-C03); its methods contain no suspension point",
    "asyncio: create_task runs the coroutine later, a task is suspended or cancelled only where an awaited user function, middleware hook, client call or sleep suspends; ContextVar.set/reset",
    "pydantic: T(**payload) either raises ValidationError or is a function of the payload; PendingEntry/ErrorEntry keep the given fields",
    "the buffered middleware manager by its contract (C09); the user's function and middleware do not mutate the payload or metadata they are given",
]
ASSUMPTIONS = ["page_size >= 1", "queued span keys are distinct from those in process (a duplicate is dropped by design, C01)", "a termination signal is not raised in the middle of user code (signals are taken by the event loop)",
               "retry counts and budgets are mathematical integers (exact for Python)"]


class Mw(Ext):
    """Buffered middleware manager: its hooks may suspend, raise or be cancelled (contract under C09)."""
    def hook(self, it, nm, **data):
        def go():
            self.ctx.event("mw", hook=nm, **data)
            it.yield_point(nm); it.may_raise(nm)
        return Coro(go, nm)
    def m_run_before_process(self, it, span_key, dto, metadata, retries): return self.hook(it, "before_process", key=span_key, dto=dto, metadata=metadata, retries=retries)
    def m_run_after_process(self, it, span_key, dto, metadata, success): return self.hook(it, "after_process", key=span_key, dto=dto, metadata=metadata, success=success)
    def m_collect_push_metadata(self, it, span_key, dto):
        def go():
            self.ctx.event("mw", hook="before_push", key=span_key, dto=dto)
            it.yield_point("before_push"); it.may_raise("before_push")
            m = opaque(self.ctx, "meta", dict)
            self.ctx.event("meta", value=m)
            return m
        return Coro(go, "before_push")


class UserFn(Ext):
    def m___call__(self, it, **kw):
        def go():
            self.ctx.event("process", kw=kw, current=current_key(it))
            it.yield_point("process"); it.may_raise("process")
            r = SVal(self.ctx.fresh_u("result"), None, True)
            self.ctx.event("result", value=r)
            return r
        return Coro(go, "user function")


class Client(Ext):
    def m_send_message(self, it, route_key, data, response_dto_type=None, span_key=None):
        def go():
            self.ctx.event("process", kw={"route_key": route_key, "dto": data, "span_key": span_key, "type": response_dto_type}, current=current_key(it))
            it.yield_point("process"); it.may_raise("process")
            r = opaque(self.ctx, "response")
            self.ctx.event("result", value=r)
            return r
        return Coro(go, "send_message")


class W:
    def __init__(self, ctx, kind, accepted=None):
        self.ctx, self.kind = ctx, kind
        it = self.it = C.interp(ctx)
        self.made = {}
        C.install_queues(it, self.made)
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        it.singletons[StatisticsKeeper] = C.StatsExt(ctx)
        self.T = C.payload_type()
        self.maxr = ctx.fresh_int("max_retries")
        self.ps = ctx.fresh_int("page_size")
        self.route = opaque(ctx, "route", str)
        ctx.assume(self.ps >= 1)
        if kind == "handler":
            from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
            from ekosis.requests.buffered_handler import BufferedHandler
            self.mw = it.singletons[BufferedMiddlewareManager] = Mw(ctx)
            self.accepted = list(accepted) if accepted is not None else [n for n in ("span_key", "dto") if ctx.choose("accepts_" + n)]
            self.fn = UserFn(ctx)
            self.h = it.call(BufferedHandler, [], dict(route_key=self.route, function=self.fn, request_dto_type=self.T,
                             page_size=SInt(self.ps), max_retries=SInt(self.maxr), accepted_parameters=MSet(ctx, self.accepted)))
        else:
            from ekosis.sending.buffered_sender_class import BufferedSenderClass
            self.wait = ctx.fresh_int("wait_period"); ctx.assume(self.wait >= 0)
            self.R = opaque(ctx, "response_type")
            self.h = it.call(BufferedSenderClass, [], dict(client=Client(ctx), route_key=self.route, request_dto_type=self.T, response_dto_type=self.R,
                             wait_period=SInt(self.wait), page_size=SInt(self.ps), max_retries=SInt(self.maxr)))
        self.busy = True
        self.sd = Ext(ctx, called=False)

    def setup(self):
        """The real setup; returns the processing task it started."""
        it, ctx = self.it, self.ctx
        mark = len(ctx.trace)
        call(it, self.h, "setup", opaque(ctx, "dir", str), opaque(ctx, "app", str), opaque(ctx, "inst", str))
        tasks = [d["task"] for k, d in ctx.trace[mark:] if k == "task"]
        if len(self.made.get("pending", [])) != 1 or len(self.made.get("error", [])) != 1: raise Unsupported("setup does not make one pending and one error queue")
        self.pq, self.eq = self.made["pending"][0], self.made["error"][0]
        ctx.oblige("setup: starts the processing of what is queued", len(tasks) == 1)
        if len(tasks) != 1: raise PathEnd()
        ctx.oblige("setup: queue pages have the configured size", z3.And(it.z(self.pq.st["page_size"]) == self.ps, it.z(self.eq.st["page_size"]) == self.ps))
        return tasks[0]

    def interfere(self, it, label):
        """What other tasks may do at a suspension point, through the public methods."""
        ctx = self.ctx
        for q in (self.pq, self.eq): q.arbitrary()
        pause, unpause = ("pause_processing", "unpause_processing") if self.kind == "handler" else ("pause_send_process", "unpause_send_process")
        c = ctx.choose_n(3, "other_task")
        if c == 1: it.call(it.getattr(self.h, pause), [], {})
        elif c == 2 and self.sd.st["called"] is not True:
            self.sd.set("called", True)
            it.call(it.getattr(self.h, "shut_down"), [], {})


def outcome(w, events, exc, tag):
    """The contract of one iteration."""
    it, ctx = w.it, w.ctx
    pops = [d for k, d in events if k == "pop"]
    pushes = [d for k, d in events if k == "push"]
    if not pops:
        ctx.oblige(f"{tag}: nothing is queued without an item taken", not pushes)
        return
    ctx.oblige(f"{tag}: items are taken one at a time, from the pending queue", len(pops) == 1 and pops[0]["q"] == "pending")
    e = pops[0]["entry"].fields
    k, d, r, m = e["span_key"].z, e["data"].z, e["retries"].z, e["metadata"]
    procs = [x for kk, x in events if kk == "process"]
    fails = [(kk, x) for kk, x in events if kk in ("raised", "cancelled")]
    results = [x["value"] for kk, x in events if kk == "result"]
    ctx.oblige(f"{tag}: an item is processed at most once", len(procs) <= 1)
    for p in procs:
        kw = p["kw"]
        if w.kind == "handler":
            want = {n: v for n, v in (("span_key", k), ("dto", new_T(d))) if n in w.accepted}
            ctx.oblige(f"{tag}: the function gets the parameters it declares", set(kw) == set(want))
            for n in want:
                if n in kw: ctx.oblige(f"{tag}: the function gets the item's own {n}", it.term(kw[n]) == want[n])
            ctx.oblige(f"{tag}: the item's span key is current while it is processed", p["current"] is not None and it.term(p["current"]) == k)
        else:
            ctx.oblige(f"{tag}: sent to the sender's route", it.term(kw["route_key"]) == w.route.z)
            ctx.oblige(f"{tag}: sent with its own payload", it.term(kw["dto"]) == new_T(d))
            ctx.oblige(f"{tag}: sent under its own span key", kw["span_key"] is not None and it.term(kw["span_key"]) == k)
            ctx.oblige(f"{tag}: sent with the sender's response type", it.term(kw["type"]) == w.R.z)
    first = fails[0] if fails else None
    if first is None and not procs:
        ctx.oblige(f"{tag}: an item is skipped only when its payload is not of the expected type", z3.Not(valid_T(d)))
        want = "error"
    elif first is None:
        if w.kind == "handler": want = "done" if ctx.branch(truthy(results[0].z)) else "retry"
        else: want = "done"
    elif first[0] == "cancelled": want = "keep"
    else:
        want = "error"
        if w.kind == "sender":
            from ekosis.exceptions import ServerBusyException, CommunicationsMaxRetriesReached
            if it.exc_match(first[1]["exc"], (ServerBusyException, CommunicationsMaxRetriesReached)): want = "retry"
    ctx.oblige(f"{tag}: a cancellation is passed on", exc is not None if want == "keep" else exc is None, f"wanted {want}, exception {exc and exc.val!r}")
    if want == "retry": want = "exhausted" if ctx.branch(r + 1 >= w.maxr) else "again"
    if want == "done":
        ctx.oblige(f"{tag}: a finished item is not queued again", not pushes)
        return
    name = {"error": "an item whose processing raised goes to the error queue", "keep": "a cancelled item is kept in the pending queue",
            "again": "a failed item returns to the pending queue", "exhausted": "a failed item without retries left goes to the error queue"}[want]
    ok = len(pushes) == 1 and pushes[0]["q"] == ("pending" if want in ("keep", "again") else "error")
    ctx.oblige(f"{tag}: {name}, once", ok, f"pushes {[p['q'] for p in pushes]}")
    if not ok: return
    p = pushes[0]
    f = p["obj"].fields
    ctx.oblige(f"{tag}: {name}: same span key", z3.And(it.term(p["key"]) == k, it.term(f["span_key"]) == k))
    ctx.oblige(f"{tag}: {name}: same payload", same_payload(it, f["data"], d))
    if w.kind == "handler": ctx.oblige(f"{tag}: {name}: same metadata", same_meta(it, f["metadata"], m))
    if "retries" in f:
        ctx.oblige(f"{tag}: {name}: retry count", it.z(f["retries"]) == (r + 1 if want == "again" else r))
    elif want == "error" and first is not None:
        ctx.oblige(f"{tag}: {name}: reason", it.term(f["reason"]) == it.term(it.str_(first[1]["exc"])))
    elif want == "exhausted":
        ctx.oblige(f"{tag}: {name}: reason", truthy(it.term(f["reason"])))


def processing(kind, accepted=(), has_outer=False):
    def go(ctx):
        w = W(ctx, kind, accepted)
        it = w.it
        t = w.setup()
        w.pq.arbitrary(); w.eq.arbitrary()
        outer = key(ctx, "outer_key") if has_outer else None
        if outer is not None:
            from ekosis.requests import request_context as rc
            it.ctxvars[rc._current_span_key] = outer
        it.on_yield, it.cancellable = w.interfere, True
        st = {"mark": len(ctx.trace)}
        def head(it, fr, K): st["mark"] = len(ctx.trace)
        def back(it, fr, K):
            ev = ctx.trace[st["mark"]:]
            outcome(w, ev, None, "iteration")
            ctx.oblige("iteration: queues stay open while an item is processed", not any(k == "close" for k, _ in ev))
            ctx.oblige("iteration: the span key context is restored", restored(it, outer))
            ctx.oblige("iteration: still marked as running", it.getattr(w.h, "running") is True, rep=True)
        def templ(it, k, v, loc):
            if loc.obj is w.sd and "shutdown" in w.h.fields: return zb(v) == zb(w.h.fields["shutdown"])
            if loc.obj in (w.pq, w.eq) and loc.name == "n": return (v.z if isinstance(v, SInt) else v) >= 0
            return None
        it.loop_spec = LoopSpec(templates=[templ], on_head=head, on_back=back, exact=True, body_paths=3000)
        exc = None
        try:
            t.run(it)
        except PyExc as e:
            exc = e
        it.cancellable, it.on_yield = False, None
        ev = ctx.trace[st["mark"]:]
        outcome(w, ev, exc, "last iteration")
        if exc is not None: ctx.oblige("a task ends only by cancellation", isinstance(exc.val, Obj) and exc.val.cls is asyncio.CancelledError, repr(exc.val))
        ctx.oblige("the span key context is restored", restored(it, outer))
        # shutdown requested before: the queues are closed exactly once, after the last outcome
        closes = [i for i, (k, d) in enumerate(ev) if k == "close"]
        others = [i for i, (k, d) in enumerate(ev) if k in ("push", "pop", "process")]
        sd = w.sd.st["called"]
        if sd is not False and (sd is True or ctx.branch(zb(sd))):
            ctx.oblige("a requested shutdown closes both queues once processing has stopped", len(closes) == 2 and {ev[i][1]["q"] for i in closes} == {"pending", "error"})
            ctx.oblige("nothing is queued after the queues were closed", not closes or not others or max(others) < min(closes))
            ctx.oblige("a requested shutdown is reported", sum(1 for k, d in ev if k == "future") == 1)
        else:
            ctx.oblige("queues stay open without a shutdown", not closes)
            it.call(it.getattr(w.h, "shut_down"), [], {})
            ev2 = ctx.trace[st["mark"] + len(ev):]
            ctx.oblige("shutting down an idle one closes both queues", sorted(d["q"] for k, d in ev2 if k == "close") == ["error", "pending"])
    return go


def zb(v): return v.z if isinstance(v, SBool) else z3.BoolVal(bool(v)) if isinstance(v, bool) else v


def restored(it, outer):
    c = current_key(it)
    if outer is None: return c is None
    return c is not None and it.term(c) == outer.z


def receiving(ctx):
    """BufferedRequestHandlerBase.run: stored before acknowledged."""
    w = W(ctx, "handler")
    it = w.it
    w.setup()
    w.pq.arbitrary(); w.eq.arbitrary()
    paused = ctx.choose("paused")
    call(it, w.h, "pause_receiving" if paused else "unpause_receiving")
    k, dto = key(ctx), opaque(ctx, "dto", w.T)
    it.cancellable = True
    closed = []
    def interfere(it, label):
        c = ctx.choose_n(3, "other_task")
        if c == 1: it.call(it.getattr(w.h, "pause_receiving"), [], {}); closed.append("paused")
        elif c == 2: it.call(it.getattr(w.h, "shut_down"), [], {}); closed.append("shut down")
    it.on_yield = interfere
    mark = len(ctx.trace)
    exc = r = None
    try:
        r = call(it, w.h, "run", span_key=k, dto=dto, protocol_dto=opaque(ctx, "protocol"))
    except PyExc as e:
        exc = e
    it.cancellable = False
    ev = ctx.trace[mark:]
    pushes = [d for kk, d in ev if kk == "push"]
    metas = [d["value"] for kk, d in ev if kk == "meta"]
    from ekosis.requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
    from ekosis.requests.status import Status
    if paused:
        ctx.oblige("paused: refused", exc is not None and isinstance(exc.val, Obj) and issubclass(exc.val.cls, BufferedRequestHandlerExceptionBase), repr(exc and exc.val))
        if exc is not None and isinstance(exc.val, Obj): ctx.oblige("paused: busy status", exc.val.fields.get("status") == Status.APPLICATION_BUSY.value)
        ctx.oblige("paused: not stored", not pushes)
        return
    if closed:
        ctx.oblige("paused meanwhile: not stored and not acknowledged", not pushes and exc is not None, closed[0])
        return
    if exc is not None:
        raised = [d for kk, d in ev if kk in ("raised", "cancelled")]
        ctx.oblige("run: fails only when middleware fails or it is cancelled", bool(raised), repr(exc.val) + str(getattr(exc.val, "fields", "")))
        return
    ok = len(pushes) == 1 and pushes[0]["q"] == "pending"
    ctx.oblige("run: stored exactly once before the acknowledgement", ok)
    if not ok: return
    p = pushes[0]; f = p["obj"].fields
    ctx.oblige("run: stored under its span key", z3.And(it.term(p["key"]) == k.z, it.term(f["span_key"]) == k.z))
    ctx.oblige("run: stored with its payload", it.term(f["data"]) == dto.z)
    ctx.oblige("run: stored with no retries used", it.z(f["retries"]) == 0)
    ctx.oblige("run: stored with the metadata the middleware gave", len(metas) == 1 and same_meta(it, f["metadata"], metas[0]))
    ctx.oblige("run: the answer carries the span key", isinstance(r, Obj) and it.term(r.fields["span_key"]) == k.z)
    ctx.oblige("run: queues are open", not any(kk == "close" for kk, d in ctx.trace))
    ctx.oblige("run: processing is started or running", any(kk == "task" for kk, d in ctx.trace))


def restart(kind):
    """Storing an item while no processing task runs starts one."""
    def go(ctx):
        w = W(ctx, kind)
        it = w.it
        t = w.setup()
        t.set("done", ctx.choose("previous_task_done"))
        mark = len(ctx.trace)
        k, dto = key(ctx), opaque(ctx, "dto", w.T)
        if kind == "handler":
            it.call(it.getattr(w.h, "unpause_receiving"), [], {})
            t2 = [d["task"] for kk, d in ctx.trace[mark:] if kk == "task"]
            for x in t2: x.set("done", True)
            mark2 = len(ctx.trace)
            try: call(it, w.h, "run", span_key=k, dto=dto)
            except PyExc as e: raise PathEnd()
            tasks = [d for kk, d in ctx.trace[mark2:] if kk == "task"]
            ctx.oblige("storing a request starts processing when none runs, and only then", len(tasks) == (1 if t.st["done"] else 0))
            it.call(it.getattr(w.h, "pause_processing"), [], {})
            ctx.oblige("pausing processing is reported", it.call(it.getattr(w.h, "is_processing_paused"), [], {}) is True)
        else:
            gen = key(ctx, "given") if ctx.choose("key_given") else None
            call(it, w.h, "push_message", dto, gen)
            ev = ctx.trace[mark:]
            tasks = [d for kk, d in ev if kk == "task"]
            pushes = [d for kk, d in ev if kk == "push"]
            ctx.oblige("handing over a message starts sending when none runs, and only then", len(tasks) == (1 if t.st["done"] else 0))
            ok = len(pushes) == 1 and pushes[0]["q"] == "pending"
            ctx.oblige("a message handed over is stored exactly once", ok)
            if not ok: return
            f = pushes[0]["obj"].fields
            ctx.oblige("stored with its payload and no retries used", z3.And(it.term(f["data"]) == dto.z, it.z(f["retries"]) == 0))
            ctx.oblige("stored under one span key", it.term(f["span_key"]) == it.term(pushes[0]["key"]))
            if gen is not None: ctx.oblige("stored under the given span key", it.term(pushes[0]["key"]) == gen.z)
    return go
