"""Shared contract models: abstract queues, asyncio primitives, span keys."""
import asyncio, json, logging
import z3
import pydantic
from dv.core import *
from dv.interp import Interp, BoundMethod, ModelFn, MDict
from dv import methods
from dv.methods import forall_range

bytes_of, key_of, str_of_key = (z3.Function(n, U, U) for n in ("key_bytes", "key_from_bytes", "key_str"))


def interp(ctx):
    """Interpreter with span keys as opaque values compared by value (contract proved under C12)."""
    from ekosis.data_transfer_objects import SpanKey
    it = Interp(ctx)
    isk = lambda v: isinstance(v, SVal) and v.cls is not None and issubclass(v.cls, SpanKey)
    it.attr_models[(SpanKey, "__eq__")] = lambda it, a, b: SBool(it.term(a) == it.term(b)) if isk(b) else False
    it.attr_models[(SpanKey, "__str__")] = lambda it, v: it.val(str_of_key(it.term(v)), str)
    it.models[SpanKey.generate.__func__] = lambda it, cls: it.val(ctx.fresh_u("generated_key"), SpanKey)
    def kbytes(it, v):
        ctx.assume(key_of(bytes_of(it.term(v))) == it.term(v))
        return it.val(bytes_of(it.term(v)), bytes)
    it.attr_models[(SpanKey, "bytes")] = kbytes
    it.models[SpanKey.from_bytes.__func__] = lambda it, cls, b: it.val(key_of(it.term(b)), SpanKey)
    # asyncio
    it.models[asyncio.create_task] = lambda it, c, **k: TaskExt(ctx, coro=c)
    it.models[asyncio.get_running_loop] = lambda it: LoopExt(ctx)
    it.models[asyncio.get_event_loop] = lambda it: LoopExt(ctx)
    it.models[asyncio.sleep] = lambda it, *a, **k: Coro(lambda: it.yield_point("sleep"), "sleep")
    return it


def key(ctx, name="key"):
    from ekosis.data_transfer_objects import SpanKey
    k = ctx.fresh_u(name)
    ctx.assume(k != NONE)
    return SVal(k, SpanKey)


def opaque(ctx, name, cls=None, nullable=False):
    v = ctx.fresh_u(name)
    if not nullable: ctx.assume(v != NONE)
    return SVal(v, cls, nullable)


def payload_type():
    class PayloadDTO(pydantic.BaseModel):
        x: int = 0
    return PayloadDTO


new_T = z3.Function("new_PayloadDTO", U, U)
valid_T = z3.Function("valid_PayloadDTO", U, B)


class TaskExt(Ext):
    pycls = asyncio.Task
    def __init__(self, ctx, coro):
        super().__init__(ctx, coro=coro, done=False)
        ctx.event("task", task=self)
    def m_done(self, it): return self.st["done"]
    def m_add_done_callback(self, it, f): return None
    def m_cancel(self, it, *a): self.ctx.event("task_cancel", task=self); return True
    def run(self, it):
        """Runs the task's body to its end (for the verifier: from an arbitrary state)."""
        try:
            return it.await_(self.st["coro"])
        finally:
            self.set("done", True)
    def await_(self, it): raise Unsupported("await of a task")


class FutureExt(Ext):
    pycls = asyncio.Future
    def __init__(self, ctx): super().__init__(ctx, done=False)
    def m_done(self, it): return self.st["done"]
    def m_set_result(self, it, v):
        if self.st["done"] is True: it.raise_py(asyncio.InvalidStateError, "invalid state")
        self.set("done", True); self.ctx.event("future", fut=self, value=v)


class LoopExt(Ext):
    def m_create_future(self, it): return FutureExt(self.ctx)
    def m_create_task(self, it, c, **k): return TaskExt(self.ctx, coro=c)


class StatsExt(Ext):
    """Statistics keeper: only records."""
    def m_add_persisted_queue(self, it, key, q): self.ctx.event("stat_queue", key=key, q=q)
    def m_track_endpoint_data(self, it, key): self.ctx.event("stat_track", key=key)
    def m_add_endpoint_stats(self, it, key, percentile=0): self.ctx.event("stat", key=key, value=percentile)
    def m_increment(self, it, key, value=1): self.ctx.event("stat_inc", key=key, value=value)
    def m_decrement(self, it, key, value=1): self.ctx.event("stat_dec", key=key, value=value)


class AbsQ(Ext):
    """Contract of PaginatedQueue as used by one client (proved under C01-C03): pop takes one entry when
    there is one, push adds the given object under the given key.  None of the methods suspends."""
    def __init__(self, ctx, name, T):
        super().__init__(ctx, n=SInt(z3.IntVal(0)), name=name, T=T)
    def arbitrary(self):
        n = self.ctx.fresh_int(self.st["name"] + "_size")
        self.ctx.assume(n >= 0)
        self.set("n", SInt(n))
    def entry(self, it):
        ctx = self.ctx
        f = {"span_key": key(ctx, "popped_key"), "data": opaque(ctx, "popped_data", dict), "metadata": opaque(ctx, "popped_meta", dict)}
        if "retries" in self.st["T"].model_fields:
            r = ctx.fresh_int("popped_retries"); ctx.assume(r >= 0); f["retries"] = SInt(r)
        if "reason" in self.st["T"].model_fields: f["reason"] = opaque(ctx, "popped_reason", str)
        if set(f) != set(self.st["T"].model_fields): raise Unsupported("queue entry has other fields than the contract")
        return Obj(ctx, self.st["T"], f)
    def n(self): return self.st["n"].z
    def m_size(self, it): return self.st["n"]
    def m_is_empty(self, it): return SBool(self.n() == 0)
    def m_push(self, it, obj, key):
        def go():
            self.ctx.event("push", q=self.st["name"], obj=obj, key=key)
            n = self.ctx.fresh_int("n")
            self.ctx.assume(z3.And(n >= 1, n >= self.n(), n <= self.n() + 1))
            self.set("n", SInt(n))
            return key
        return Coro(go, "push")
    def m_pop(self, it):
        def go():
            if self.ctx.branch(self.n() <= 0): return None
            e = self.entry(it)
            self.set("n", SInt(z3.simplify(self.n() - 1)))
            self.ctx.event("pop", q=self.st["name"], entry=e)
            return e
        return Coro(go, "pop")
    def m_pop_span_key(self, it, key):
        def go():
            if self.ctx.choose("key_queued"):
                e = self.entry(it)
                e.fields["span_key"] = key
                self.ctx.assume(self.n() >= 1)
                self.set("n", SInt(z3.simplify(self.n() - 1)))
                self.ctx.event("popk", q=self.st["name"], key=key, entry=e)
                return e
            self.ctx.event("popk", q=self.st["name"], key=key, entry=None)
            return None
        return Coro(go, "pop_span_key")
    def m_inspect_span_key(self, it, key):
        def go():
            e = None
            if self.ctx.choose("key_queued"):
                e = self.entry(it); e.fields["span_key"] = key
                self.ctx.assume(self.n() >= 1)
            self.ctx.event("insp", q=self.st["name"], key=key, entry=e)
            return e
        return Coro(go, "inspect_span_key")
    def m_get_first_x_span_keys(self, it, how_many=1):
        def go():
            r = opaque(self.ctx, "keys", list)
            self.ctx.event("first", q=self.st["name"], x=how_many, result=r)
            return r
        return Coro(go, "get_first_x_span_keys")
    def m_clear(self, it):
        def go():
            self.ctx.event("clear", q=self.st["name"]); self.set("n", SInt(z3.IntVal(0)))
        return Coro(go, "clear")
    def m_shut_down(self, it): self.ctx.event("close", q=self.st["name"])


def install_queues(it, made, cls=AbsQ):
    """PaginatedQueue(...) builds an abstract queue; `made` collects them by name."""
    from ekosis.queues import paginated_queue as pq, pending_queue as pe
    def new(it, file_path, queued_type, page_size=100, *a, **k):
        name = "pending" if queued_type is pe.PendingEntry else "error" if queued_type is pe.ErrorEntry else None
        if name is None: raise Unsupported("queue of an unknown type")
        q = cls(it.ctx, name, queued_type)
        q.st["path"], q.st["page_size"] = file_path, page_size
        made.setdefault(name, []).append(q)
        return q
    it.models[pq.PaginatedQueue] = new


def instantiate_hook(it):
    """models for classes are consulted by Interp.call; generic aliases reach instantiate directly."""


def same_meta(it, got, want):
    """Metadata equal to `want` (an opaque dict): the same value, or an empty dict when it is empty."""
    if isinstance(got, MDict) and not got.symbolic and not got.d: return z3.Not(truthy(want.z))
    if got is None: return False
    return it.term(got) == want.z


def same_payload(it, got, want):
    """The popped payload itself or the DTO made from it."""
    t = it.term(got) if got is not None else NONE
    return z3.Or(t == want, t == new_T(want))


def call(it, o, name, *args, **kw):
    r = it.call(it.getattr(o, name), list(args), kw)
    return it.await_(r) if isinstance(r, Coro) else r


def current_key(it):
    from ekosis.requests import request_context as rc
    return it.ctxvars.get(rc._current_span_key)
