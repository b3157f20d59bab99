"""Contracts of routing, middleware chains and parameter injection (C09)."""
import asyncio
import pydantic
import z3
from dv.core import *
from dv.interp import MDict, MSet
from dv.loops import LoopSpec
from dv.methods import symbols
from . import common as C
from .common import call, key, opaque, new_T, valid_T

known = z3.Function("route_registered", U, B)
handler_of = z3.Function("handler_for", U, U)
nmw = z3.Int("middleware_count")


class Handler(Ext):
    """Any registered handler, by contract: gives a response or raises."""
    def __init__(self, ctx, rk):
        from ekosis.requests.standard_handler import StandardHandler
        self.pycls = StandardHandler
        super().__init__(ctx, rk=rk, term=handler_of(rk))
    def ite_(self, it, c, b): return Handler(self.ctx, z3.If(c, self.st["rk"], b.st["rk"]))
    def m_get_route_key(self, it): return it.val(self.st["rk"], str)
    def m_attempt_request(self, it, protocol_dto=None, **kw):
        def go():
            w = it.world
            w.handler(self, protocol_dto, kw)
            it.yield_point("handler"); it.may_raise("handler")
            v = opaque(self.ctx, "response", None, True)
            w.g.set("res", v)
            w.g.set("answered", True)
            return v
        return Coro(go, "attempt_request")


class Middleware(Ext):
    """The i-th registered middleware; returns any value or raises."""
    def __init__(self, ctx, i): super().__init__(ctx, i=i, term=z3.Function("middleware", I, U)(i))
    def ite_(self, it, c, b): return Middleware(self.ctx, z3.If(c, self.st["i"], b.st["i"]))
    def hook(self, it, name, cnt, cur, arg, kw):
        def go():
            ctx, w = self.ctx, it.world
            ctx.oblige(f"{name}: hooks run once each, in registration order", w.g.st[cnt].z == self.st["i"])
            ctx.oblige(f"{name}: a hook gets what the previous one gave", arg in kw and it.term(kw[arg]) == w.g.st[cur].z)
            ctx.oblige(f"{name}: hooks get the span key", "span_key" in kw and it.term(kw["span_key"]) == w.key.z)
            w.order(name)
            it.yield_point(name); it.may_raise(name)
            v = opaque(ctx, name + "_result", None, True)
            w.g.set(cnt, SInt(z3.simplify(w.g.st[cnt].z + 1)))
            w.g.set(cur, v)
            return v
        return Coro(go, name)
    def m_before_routing(self, it, **kw): return self.hook(it, "before_routing", "nb", "req", "protocol_dto", kw)
    def m_after_routing(self, it, **kw): return self.hook(it, "after_routing", "na", "res", "response_dto", kw)


def table_of(it, router, h):
    """The dict in which the router keeps the handlers: the one that holds a registered probe."""
    cands = [v for v in list(router.fields.values()) if isinstance(v, MDict)]
    for c in router.cls.__mro__:
        for v in list(vars(c).values()):
            if type(v) is dict and id(v) in it.ctx.memo: cands.append(it.ctx.memo[id(v)][1])
    hits = []
    for d in cands:
        if d.symbolic:
            if d not in hits: hits.append(d)
        elif any(v is h for v in d.d.values()) and d not in hits: hits.append(d)
    if len(hits) != 1: raise Unsupported("the routing table is not one dictionary of handlers")
    return hits[0]


class W:
    def __init__(self, ctx, middleware=True):
        from ekosis.requests.request_router import RequestRouter
        from ekosis.requests.standard_handler import StandardHandler
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        from ekosis.middleware.manager import MiddlewareManager
        self.ctx = ctx
        it = self.it = C.interp(ctx)
        it.world = self
        it.singletons[StatisticsKeeper] = C.StatsExt(ctx)
        self.T = C.payload_type()
        self.router = it.singletons[RequestRouter] = it.call(RequestRouter, [], {})
        probe = it.call(StandardHandler, ["probe", None, self.T, MSet(ctx, [])], {})
        call(it, self.router, "register_handler", probe)
        self.table = table_of(it, self.router, probe)
        # an arbitrary routing table
        self.table.d, self.table.dom, self.table.order = None, (lambda k: known(k)), None
        self.table.val = lambda k: Handler(ctx, k)
        self.mm = it.wrap(MiddlewareManager())
        lists = [v for v in self.mm.fields.values() if isinstance(v, MList)]
        if len(lists) != 1: raise Unsupported("the middleware manager has no single list of middleware")
        if middleware:
            ctx.assume(nmw >= 0)
            lists[0].items, lists[0].n, lists[0].get = None, nmw, (lambda i: Middleware(ctx, i))
        else: lists[0].items = []
        self.mws = lists[0]
        self.key = key(ctx)
        self.g = Ext(ctx, nb=SInt(z3.IntVal(0)), na=SInt(z3.IntVal(0)), req=None, res=None, answered=False, handled=False)

    def order(self, name):
        h = self.g.st["handled"]
        self.ctx.oblige(f"{name}: " + ("middleware sees the request before the endpoint" if name == "before_routing" else "middleware sees the response after the endpoint"),
                        self.g.st["handled"] is False if name == "before_routing" else self.g.st["answered"] is True)

    def handler(self, h, dto, kw):
        ctx, it = self.ctx, self.it
        ctx.oblige("the endpoint registered for the route key handles the request", h.st["rk"] == self.rk)
        ctx.oblige("the request is handled once", self.g.st["handled"] is False)
        ctx.oblige("all middleware has seen the request before the endpoint", self.g.st["nb"].z == nmw)
        ctx.oblige("the endpoint gets the request as the middleware left it", dto is not None and it.term(dto) == self.g.st["req"].z)
        ctx.oblige("the endpoint gets the span key", "span_key" in kw and it.term(kw["span_key"]) == self.key.z)
        self.g.set("handled", True)

    def template(self, it, k, v, loc):
        g = self.g
        if loc.obj is g:
            if loc.name in ("nb", "na"): return v.z == k if isinstance(v, SInt) else None
            return None
        return None

    def below(self, it, k, v, loc):
        return v.z <= nmw if loc.obj is self.g and loc.name in ("nb", "na") and isinstance(v, SInt) else None

    def same(self, cur):
        def t(it, k, v, loc):
            c = self.g.st[cur]
            if loc.obj is self.g or not isinstance(v, SVal) or c is None: return None
            return v.z == c.z
        return t


def entry_same(w, cur, name):
    def t(it, k, v, loc):
        if not isinstance(v, MDict) or v.symbolic or not isinstance(v.d.get(name), SVal) or w.g.st[cur] is None: return None
        return v.d[name].z == w.g.st[cur].z
    return t


def route(ctx):
    """RequestRouter.route_request with the real middleware manager, for an arbitrary table and middleware list."""
    from ekosis.data_transfer_objects import RequestDTO
    from ekosis.requests.request_router import RoutingExceptionBase
    from ekosis.exceptions.application_level import ApplicationProcessingException
    from ekosis.requests.status import Status
    w = W(ctx)
    it = w.it
    req = opaque(ctx, "request", RequestDTO)
    w.rk = it.term(it.getattr(req, "route_key"))
    w.g.set("req", req)
    it.cancellable = True
    it.loop_spec = LoopSpec(templates=[w.template, w.below, w.same("req"), w.same("res"), entry_same(w, "req", "protocol_dto"), entry_same(w, "res", "response_dto")], exact=True, body_paths=200)
    exc = r = None
    try: r = call(it, w.router, "route_request", protocol_dto=req, span_key=w.key)
    except PyExc as e: exc = e.val
    it.cancellable = False
    raised = [d["exc"] for k, d in ctx.trace if k == "raised"]
    cancelled = any(k == "cancelled" for k, d in ctx.trace)
    g = w.g.st
    if exc is None:
        ctx.oblige("only a registered route is handled", known(w.rk))
        ctx.oblige("a result is the response of the endpoint, after all middleware", g["answered"] is True)
        ctx.oblige("all middleware has seen the response", g["na"].z == nmw)
        ctx.oblige("the result is what the last hook gave", it.term(r) == g["res"].z if r is not None and g["res"] is not None else False)
        ctx.oblige("a failure is not turned into a result", not raised and not cancelled)
        return
    if not ctx.branch(known(w.rk)):
        ok = isinstance(exc, Obj) and issubclass(exc.cls, RoutingExceptionBase)
        ctx.oblige("an unregistered route is reported as unknown", ok and it.z(exc.fields["status"]) == Status.ROUTE_KEY_UNKNOWN.value, repr(exc))
        ctx.oblige("an unregistered route reaches no endpoint", g["handled"] is False)
        return
    if cancelled:
        ctx.oblige("cancellation is passed on", isinstance(exc, Obj) and exc.cls is asyncio.CancelledError)
        return
    ctx.oblige("a registered route fails only when an endpoint or a hook does", bool(raised), repr(exc) + str(getattr(exc, "fields", "")))
    if not raised: return
    if it.exc_match(raised[0], ApplicationProcessingException):
        ok = isinstance(exc, Obj) and issubclass(exc.cls, RoutingExceptionBase)
        ctx.oblige("an application's processing error is a processing failure", ok and it.z(exc.fields["status"]) == Status.PROCESSING_FAILURE.value, repr(exc))
        if ok:
            m = it.term(it.getattr(raised[0], "message"))
            ctx.oblige("a processing failure carries the application's message", any(x in symbols(it.term(exc.fields["message"])) for x in symbols(m)))
    else: ctx.oblige("other exceptions are passed on", exc is raised[0], repr(exc))


class New(Ext):
    """A handler: only its route key is used when it is registered."""
    def __init__(self, ctx, rk, term):
        from ekosis.requests.standard_handler import StandardHandler
        self.pycls = StandardHandler
        super().__init__(ctx, rk=rk, term=term)
    def ite_(self, it, c, b): return New(self.ctx, z3.If(c, self.st["rk"], b.st["rk"]), z3.If(c, self.st["term"], b.st["term"]))
    def m_get_route_key(self, it): return it.val(self.st["rk"], str)


def register(ctx):
    """RequestRouter.register_handler over an arbitrary table."""
    w = W(ctx, middleware=False)
    it = w.it
    rk = opaque(ctx, "route_key", str)
    h = New(ctx, rk.z, ctx.fresh_u("new_handler"))
    hv = h.st["term"]
    w.table.val = lambda k: New(ctx, k, handler_of(k))
    x = ctx.fresh_u("any_route")
    mark = len(ctx.trace)
    exc = None
    try: call(it, w.router, "register_handler", h)
    except PyExc as e: exc = e.val
    t = w.table
    tracked = [d for k, d in ctx.trace[mark:] if k == "stat_track"]
    if exc is not None:
        ctx.oblige("registering is refused only for a route key that is taken", known(rk.z))
        ctx.oblige("a refused registration changes nothing", z3.And(t.dom(x) == known(x), it.term(t.val(x)) == handler_of(x)))
        ctx.oblige("a refused registration is not tracked", not tracked)
        return
    ctx.oblige("a route key that is taken is refused", z3.Not(known(rk.z)))
    ctx.oblige("a registered route is known, and no other is added", t.dom(x) == z3.Or(known(x), x == rk.z))
    ctx.oblige("the handler is found under its route key", it.term(t.val(rk.z)) == hv)
    y = ctx.fresh_u("other_route")
    ctx.assume(z3.And(y != rk.z, known(y)))
    v = t.val(y)
    ctx.oblige("the other routes keep their handlers", it.term(v) == handler_of(y))
    ctx.oblige("calls of a registered route are tracked", len(tracked) == 1 and it.term(tracked[0]["key"]) == rk.z)


def added(ctx):
    """MiddlewareManager.add appends."""
    w = W(ctx)
    m = Middleware(ctx, ctx.fresh_int("new"))
    call(w.it, w.mm, "add", m)
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(i >= 0, i < nmw))
    ctx.oblige("a middleware is added", w.mws.n == nmw + 1 and w.it.term(w.mws.get(nmw)) == m.st["term"])
    ctx.oblige("behind those added before", w.it.term(w.mws.get(i)) == z3.Function("middleware", I, U)(i))


# ---------------------------------------------------------------- parameter injection
def combos():
    async def none(): ...
    async def dto(dto): ...
    async def span(span_key): ...
    async def both(dto, span_key): ...
    async def turned(span_key, dto): ...
    async def named(*, dto, span_key=None): ...
    async def other(dto, something=5): ...
    return {"none": (none, []), "dto": (dto, ["dto"]), "span_key": (span, ["span_key"]), "both": (both, ["dto", "span_key"]), "turned": (turned, ["dto", "span_key"]),
            "keyword": (named, ["dto", "span_key"]), "default": (other, ["dto"])}


def inject(which, typed):
    """endpoint(): decorate, route a request to it."""
    def go(ctx):
        from ekosis.requests.endpoint import endpoint
        from ekosis.data_transfer_objects import RequestDTO, EmptyDto
        w = W(ctx, middleware=False)
        it = w.it
        w.table.d, w.table.dom, w.table.val = {}, None, None
        fn, names = combos()[which]
        calls = []
        def model(it, *a, **kw):
            def go():
                calls.append((a, kw))
                it.yield_point("function"); it.may_raise("function")
                v = opaque(ctx, "result", None, True)
                ctx.event("result", value=v)
                return v
            return Coro(go, "function")
        it.models[fn] = model
        rk = "the.route"
        deco = it.call(endpoint, [rk] + ([w.T] if typed else []), {})
        back = it.call(deco, [fn], {})
        ctx.oblige("the decorator gives the function back", back is fn)
        req = opaque(ctx, "request", RequestDTO)
        ctx.assume(it.term(it.getattr(req, "route_key")) == ctx.const(rk))
        data = it.term(it.getattr(req, "data"))
        T = w.T if typed else EmptyDto
        new, valid = z3.Function("new_" + T.__name__, U, U), z3.Function("valid_" + T.__name__, U, B)
        exc = r = None
        try: r = call(it, w.router, "route_request", protocol_dto=req, span_key=w.key)
        except PyExc as e: exc = e.val
        raised = [d["exc"] for k, d in ctx.trace if k == "raised"]
        res = [d["value"] for k, d in ctx.trace if k == "result"]
        ctx.oblige("the function is called at most once", len(calls) <= 1)
        if not calls:
            ctx.oblige("a payload that is not of the endpoint's type does not reach the function", exc is not None)
            ctx.oblige("only a payload that is not of the endpoint's type is rejected", z3.Not(z3.And(valid(data), z3.Function("is_mapping", U, B)(data))), repr(exc) + str(getattr(exc, "fields", "")))
            return
        ctx.oblige("a payload that is not of the endpoint's type is rejected", valid(data))
        a, kw = calls[0]
        ctx.oblige("the function gets exactly the parameters it declares", not a and set(kw) == set(names), f"{sorted(kw)}")
        if "dto" in kw: ctx.oblige("the function gets the payload as its type", it.term(kw["dto"]) == new(data))
        if "span_key" in kw: ctx.oblige("the function gets the request's span key", it.term(kw["span_key"]) == w.key.z)
        if exc is None: ctx.oblige("the function's result is the response", len(res) == 1 and r is not None and it.term(r) == res[0].z)
        else: ctx.oblige("a call fails only when the function does", bool(raised))
    return go


def inject_buffered(which):
    """buffered_endpoint(): the handler it registers processes an item with the declared parameters."""
    def go(ctx):
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.state_keepers.buffered_handler_keeper import BufferedHandlerKeeper
        w = W(ctx, middleware=False)
        it = w.it
        w.table.d, w.table.dom, w.table.val = {}, None, None
        kept = []
        class Keeper(Ext):
            def m_add_buffered_handler(self, it, h): kept.append(h)
        it.singletons[BufferedHandlerKeeper] = Keeper(ctx)
        fn, names = combos()[which]
        calls = []
        def model(it, *a, **kw):
            def go():
                calls.append((a, kw))
                v = opaque(ctx, "result", None, True)
                ctx.event("result", value=v)
                return v
            return Coro(go, "function")
        it.models[fn] = model
        ps, mr = ctx.fresh_int("page_size"), ctx.fresh_int("max_retries")
        deco = it.call(buffered_endpoint, ["the.route"], dict(request_dto_type=w.T, page_size=SInt(ps), max_retries=SInt(mr)))
        back = it.call(deco, [fn], {})
        ctx.oblige("buffered: the decorator gives the function back", back is fn)
        hs = list(w.table.d.items())
        ok = len(hs) == 1 and hs[0][0] == "the.route"
        ctx.oblige("buffered: registered under its route key", ok)
        ctx.oblige("buffered: known to the queue management", len(kept) == 1 and ok and kept[0] is hs[0][1])
        if not ok: return
        h = hs[0][1]
        ctx.oblige("buffered: page size and retry budget as given", z3.And(it.z(it.getattr(h, "page_size")) == ps, it.z(it.getattr(h, "max_retries")) == mr))
        ctx.oblige("buffered: payload type as given", it.getattr(h, "request_dto_type") is w.T)
        d = opaque(ctx, "payload", w.T)
        r = call(it, h, "process_buffered_request", span_key=w.key, dto=d)
        ctx.oblige("buffered: the function is called once", len(calls) == 1)
        if len(calls) != 1: return
        a, kw = calls[0]
        ctx.oblige("buffered: the function gets exactly the parameters it declares", not a and set(kw) == set(names), f"{sorted(kw)}")
        if "dto" in kw: ctx.oblige("buffered: the function gets the payload", it.term(kw["dto"]) == d.z)
        if "span_key" in kw: ctx.oblige("buffered: the function gets the item's span key", it.term(kw["span_key"]) == w.key.z)
        res = [x["value"] for k, x in ctx.trace if k == "result"]
        ctx.oblige("buffered: the function's result decides", it.term(r) == res[0].z)
    return go


# ---------------------------------------------------------------- buffered middleware
bdom = z3.Function("metadata_has", I, U, B)
bval = z3.Function("metadata_value", I, U, U)
some = z3.Function("metadata_given", I, B)


class Given(Ext):
    """The mapping the i-th middleware returned (may be empty or None)."""
    def __init__(self, ctx, i): super().__init__(ctx, i=i); self.pycls = dict
    def truth(self, it): return self.ctx.branch(some(self.st["i"]))
    def map_(self, it):
        i = self.st["i"]
        return (lambda x: bdom(i, x)), (lambda x: SVal(bval(i, x), None, True))


class BMiddleware(Ext):
    def __init__(self, ctx, i): super().__init__(ctx, i=i, term=z3.Function("middleware", I, U)(i))
    def check(self, it, name, a, kw, names):
        ctx, w = self.ctx, it.bw
        kw = {**dict(zip(names, a)), **kw}
        ctx.oblige(f"{name}: hooks run once each, in registration order", w.g.st["n"].z == self.st["i"])
        ctx.oblige(f"{name}: hooks get exactly their parameters", len(a) <= len(names) and set(kw) == set(names), f"{sorted(kw)}")
        for n in names:
            if n in kw: ctx.oblige(f"{name}: hooks get the item's own {n}", it.term(kw[n]) == it.term(w.vals[n]))
    def m_before_push(self, it, *a, **kw):
        def go():
            self.check(it, "before_push", a, kw, ["span_key", "dto"])
            it.yield_point("before_push"); it.may_raise("before_push")
            w, i = it.bw, self.st["i"]
            w.g.set("n", SInt(z3.simplify(w.g.st["n"].z + 1)))
            x = w.x
            self.ctx.assume(z3.Implies(z3.Not(some(i)), z3.Not(bdom(i, x))))
            has = w.g.st["has"].z
            w.g.set("val", SVal(z3.If(bdom(i, x), bval(i, x), w.g.st["val"].z), None, True))
            w.g.set("has", SBool(z3.Or(has, bdom(i, x))))
            if self.ctx.choose("gives_none"):
                self.ctx.assume(z3.And(z3.Not(some(i)), z3.Not(bdom(i, x))))
                return None
            return Given(self.ctx, i)
        return Coro(go, "before_push")
    def plain(self, it, name, a, kw, names):
        def go():
            self.check(it, name, a, kw, names)
            it.yield_point(name); it.may_raise(name)
            it.bw.g.set("n", SInt(z3.simplify(it.bw.g.st["n"].z + 1)))
        return Coro(go, name)
    def m_before_process(self, it, *a, **kw): return self.plain(it, "before_process", a, kw, ["span_key", "dto", "metadata", "retries"])
    def m_after_process(self, it, *a, **kw): return self.plain(it, "after_process", a, kw, ["span_key", "dto", "metadata", "success"])


class BW:
    def __init__(self, ctx):
        from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
        it = self.it = C.interp(ctx)
        it.bw = self
        self.mm = it.wrap(BufferedMiddlewareManager())
        lists = [v for v in self.mm.fields.values() if isinstance(v, MList)]
        if len(lists) != 1: raise Unsupported("the middleware manager has no single list of middleware")
        ctx.assume(nmw >= 0)
        lists[0].items, lists[0].n, lists[0].get = None, nmw, (lambda i: BMiddleware(ctx, i))
        self.x = ctx.fresh_u("any_metadata_key")
        self.mws = lists[0]
        self.g = Ext(ctx, n=SInt(z3.IntVal(0)), has=SBool(z3.BoolVal(False)), val=SVal(ctx.fresh_u("none"), None, True))
        self.vals = {"span_key": key(ctx), "dto": opaque(ctx, "dto"), "metadata": opaque(ctx, "metadata", dict), "retries": SInt(ctx.fresh_int("retries")), "success": SVal(ctx.fresh_u("success"), None, True)}
        it.cancellable = True
        it.loop_spec = LoopSpec(templates=[self.count, self.below, self.merged], exact=True, body_paths=200)
    def count(self, it, k, v, loc):
        return v.z == k if loc.obj is self.g and loc.name == "n" and isinstance(v, SInt) else None
    def below(self, it, k, v, loc): return v.z <= nmw if loc.obj is self.g and loc.name == "n" and isinstance(v, SInt) else None
    def merged(self, it, k, v, loc):
        if not isinstance(v, MDict): return None
        has, val = self.g.st["has"].z, self.g.st["val"].z
        if not v.symbolic: return z3.Not(has) if not v.d else None
        t = v.val(self.x)
        return z3.And(v.dom(self.x) == has, z3.Implies(has, it.term(t) == val))


def collect(ctx):
    w = BW(ctx)
    it = w.it
    exc = r = None
    try: r = call(it, w.mm, "collect_push_metadata", w.vals["span_key"], w.vals["dto"])
    except PyExc as e: exc = e.val
    if exc is not None:
        ctx.oblige("collecting fails only when a hook does or it is cancelled", any(k in ("raised", "cancelled") for k, d in ctx.trace), repr(exc) + str(getattr(exc, "fields", "")))
        return
    ctx.oblige("all middleware is asked for metadata", w.g.st["n"].z == nmw)
    ctx.oblige("a failing hook is not passed over", not any(k in ("raised", "cancelled") for k, d in ctx.trace))
    ok = isinstance(r, MDict)
    ctx.oblige("metadata is a mapping", ok)
    if not ok: return
    has, val = w.g.st["has"].z, w.g.st["val"].z
    if not r.symbolic and not r.d: ctx.oblige("metadata is what the middleware gave", z3.Not(has)); return
    if not r.symbolic: raise Unsupported("metadata")
    ctx.oblige("metadata is what the middleware gave", r.dom(w.x) == has)
    ctx.oblige("the later middleware wins", z3.Implies(has, it.term(r.val(w.x)) == val))


def around(name):
    def go(ctx):
        w = BW(ctx)
        exc = None
        try: call(w.it, w.mm, "run_" + name, *[w.vals[n] for n in ["span_key", "dto", "metadata", "retries" if name == "before_process" else "success"]])
        except PyExc as e: exc = e.val
        if exc is not None:
            ctx.oblige("running hooks fails only when one does or it is cancelled", any(k in ("raised", "cancelled") for k, d in ctx.trace), repr(exc) + str(getattr(exc, "fields", "")))
            return
        ctx.oblige(f"{name}: a failing hook is not passed over", not any(k in ("raised", "cancelled") for k, d in ctx.trace))
        ctx.oblige(f"{name}: all middleware is run", w.g.st["n"].z == nmw)
    return go


def b_added(ctx):
    w = BW(ctx)
    m = BMiddleware(ctx, ctx.fresh_int("new"))
    call(w.it, w.mm, "add", m)
    ctx.oblige("a buffered middleware is added at the end", w.mws.n == nmw + 1 and w.it.term(w.mws.get(nmw)) == m.st["term"])
