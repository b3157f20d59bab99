"""Contracts of the servers: answering one request text (C08), stream and datagram framing (C21)."""
import asyncio, json, timeit, time
import pydantic
import z3
from dv.core import *
from dv.interp import ModelFn
from dv.loops import LoopSpec
from . import common as C
from .common import call, key, opaque, current_key

is_json = z3.Function("is_json", U, B)
parse = z3.Function("json_value", U, U)
valid_R = z3.Function("valid_RequestDTO", U, B)
new_R = z3.Function("new_RequestDTO", U, U)
is_mapping = z3.Function("is_mapping", U, B)
_PEEL = ("str_strip0", "str_rstrip0", "str_lstrip0")


def peel(t):
    while z3.is_app(t) and t.decl().name() in _PEEL: t = t.arg(0)
    return t


def install_json(it, own):
    """json.loads: a function of the text up to surrounding white space; may fail with JSONDecodeError or
    (nesting, number size) with another exception."""
    ctx = it.ctx
    def loads(it, s, *a, **k):
        r = peel(it.term(s))
        if not ctx.branch(is_json(r)):
            if ctx.choose("syntax_error"):
                e = Obj(ctx, json.decoder.JSONDecodeError, {"args": (opaque(ctx, "json_msg", str),)})
            else: e = UExc(ctx, Exception, "json", excluded=[json.decoder.JSONDecodeError] + list(own))
            ctx.event("badjson", exc=e)
            raise PyExc(e)
        return SVal(parse(r), None, True)
    it.models[json.loads] = loads
    clock = [ctx.fresh_int("clock")]
    def reader(f):
        def now(it):
            t = ctx.fresh_int("clock"); ctx.assume(t >= clock[0]); clock[0] = t
            ctx.event("clock", of=f, t=t)
            return SInt(t)
        return now
    for f in (timeit.default_timer, time.time, time.monotonic, time.perf_counter): it.models[f] = reader(f)


class Router(Ext):
    """RequestRouter.route_request by its contract (C09): gives a value or raises any exception."""
    def m_route_request(self, it, **kw):
        def go():
            ctx = self.ctx
            ctx.event("route", kw=kw, current=current_key(it))
            it.yield_point("route"); it.may_raise("route")
            v = SVal(ctx.fresh_u("response"), None, True)
            ctx.event("routed", value=v, current=current_key(it))
            return v
        return Coro(go, "route_request")


def server(ctx, cls, *args):
    from ekosis.requests.request_router import RequestRouter
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
    it = C.interp(ctx)
    it.singletons[RequestRouter] = Router(ctx)
    it.singletons[StatisticsKeeper] = C.StatsExt(ctx)
    return it, it.call(cls, list(args), {})


def answer(has_outer):
    """ServerBase._route_request for every text."""
    def go(ctx):
        from ekosis.servers.server_base import ServerBase
        from ekosis.data_transfer_objects import ResponseDTO, SpanKey
        from ekosis.requests.request_router import RoutingExceptionBase
        from ekosis.requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
        from ekosis.requests.status import Status
        from ekosis.requests import request_context as rc
        it, srv = server(ctx, ServerBase)
        install_json(it, (pydantic.ValidationError, RoutingExceptionBase, BufferedRequestHandlerExceptionBase))
        if has_outer: it.ctxvars[rc._current_span_key] = key(ctx, "outer")
        outer = current_key(it)
        text = opaque(ctx, "text", str)
        st = {"nested": False}
        def interfere(it, label):
            """another request is answered meanwhile, in its own task"""
            if st["nested"] or not ctx.choose("other_request"): return
            st["nested"] = True
            mine, it.ctxvars, c = it.ctxvars, dict(it.ctxvars), it.cancellable
            it.cancellable = False
            ctx.event("other", begin=True)
            call(it, srv, "_route_request", opaque(ctx, "other_text", str))
            ctx.event("other", begin=False)
            it.ctxvars, it.cancellable = mine, c
        it.on_yield, it.cancellable = interfere, True
        exc = r = None
        try: r = call(it, srv, "_route_request", text)
        except PyExc as e: exc = e
        it.cancellable = False
        ev, skip = [], False
        for k, d in ctx.trace:
            if k == "other": skip = d["begin"]
            elif not skip: ev.append((k, d))
        cancelled = any(k == "cancelled" for k, d in ev)
        ctx.oblige("the request context is restored", (current_key(it) is None) if outer is None else current_key(it) is not None and it.term(current_key(it)) == outer.z)
        stats = [d for k, d in ev if k == "stat"]
        routes = [d for k, d in ev if k == "route"]
        doc = parse(text.z)
        req = new_R(doc)
        k = z3.Function("fld_RequestDTO_span_key", U, U)(req)
        rk = z3.Function("fld_RequestDTO_route_key", U, U)(req)
        for d in routes:
            ctx.oblige("only a readable request is routed", z3.And(is_json(text.z), is_mapping(doc), valid_R(doc)))
            ctx.oblige("the request itself is routed", it.term(d["kw"].get("protocol_dto")) == req and "protocol_dto" in d["kw"])
            ctx.oblige("routed with its span key", "span_key" in d["kw"] and it.term(d["kw"]["span_key"]) == k)
            ctx.oblige("its span key is current while it is handled", d["current"] is not None and it.term(d["current"]) == k)
        ctx.oblige("handled at most once", len(routes) <= 1)
        if cancelled:
            ctx.oblige("cancellation is passed on", exc is not None and isinstance(exc.val, Obj) and exc.val.cls is asyncio.CancelledError)
            ctx.oblige("a cancelled call is not counted", not stats)
            return
        ctx.oblige("no exception escapes", exc is None, repr(exc and exc.val))
        if exc is not None: return
        ok = isinstance(r, Obj) and issubclass(r.cls, ResponseDTO)
        ctx.oblige("a response is made", ok)
        if not ok: return
        f = r.fields
        sk, status, data = f["span_key"], it.z(f["status"]), f["data"]
        if routes:
            ctx.oblige("the response carries the request's span key", sk is not None and it.term(sk) == k)
            raised = [d["exc"] for kk, d in ev if kk == "raised"]
            if not raised:
                v = [d["value"] for kk, d in ev if kk == "routed"][0]
                ctx.oblige("success status", status == Status.SUCCESS.value)
                ctx.oblige("the endpoint's response is the payload", it.term(data) == v.z if data is not None else v.z == NONE)
                ctx.oblige("a successful call is counted once, for its route", len(stats) == 1 and it.term(stats[0]["key"]) == rk)
                at = lambda kind: next(i for i, (kk, d) in enumerate(ev) if kk == kind)
                a, b = [[d for kk, d in part if kk == "clock"] for part in (ev[:at("route")], ev[at("routed"):])]
                if stats: ctx.oblige("the duration recorded is the time taken, on one clock", z3.Or(*[it.z(stats[0]["value"]) == y["t"] - x["t"] for x in a for y in b if x["of"] is y["of"]]))
                return
            ctx.oblige("a failed call is not counted as successful", not stats)
            e = raised[0]
            if it.exc_match(e, json.decoder.JSONDecodeError): want = z3.IntVal(Status.PROTOCOL_PARSING_ERROR.value)
            elif it.exc_match(e, pydantic.ValidationError): want = z3.IntVal(Status.PYDANTIC_VALIDATION_ERROR.value)
            elif it.exc_match(e, RoutingExceptionBase) or it.exc_match(e, BufferedRequestHandlerExceptionBase): want = it.z(it.getattr(e, "status"))
            else: want = z3.IntVal(Status.UNHANDLED.value)
            ctx.oblige("the status belongs to what was raised", status == want)
            ctx.oblige("a failure's message is the payload", it.term(data) == (it.term(it.getattr(e, "message")) if "message" in e.fields else it.term(it.str_(e))))
            return
        ctx.oblige("a call that was not made is not counted", not stats)
        # not routed: could not be read
        ctx.oblige("an unreadable request is not routed and a readable one is", z3.Not(z3.And(is_json(text.z), is_mapping(doc), valid_R(doc))))
        ctx.oblige("a response to an unreadable request carries no span key", sk is None)
        bad = [d["exc"] for kk, d in ev if kk == "badjson"]
        if bad and isinstance(bad[0], Obj): ctx.oblige("text that is not JSON is a protocol parsing error", status == Status.PROTOCOL_PARSING_ERROR.value)
        elif bad: ctx.oblige("unreadable text is an error", z3.Or(status == Status.UNHANDLED.value, status == Status.PROTOCOL_PARSING_ERROR.value))
        else:
            if ctx.branch(is_mapping(doc)): ctx.oblige("a document that is no request is a validation error", status == Status.PYDANTIC_VALIDATION_ERROR.value)
            else: ctx.oblige("a document that is no request is an error", z3.Or(*[status == s.value for s in (Status.UNHANDLED, Status.PROTOCOL_PARSING_ERROR, Status.PYDANTIC_VALIDATION_ERROR)]))
    return go


# ---------------------------------------------------------------- C21
dumpable = z3.Function("json_representable", U, B)
dumped = z3.Function("response_json", U, U)


def install_dump(it):
    """model_dump_json of a response: a text, or PydanticSerializationError when its data has no JSON form."""
    from pydantic_core import PydanticSerializationError
    from dv import methods
    ctx = it.ctx
    def dump(it, o):
        t = methods.obj_term(it, o)
        d = o.fields["data"] if isinstance(o, Obj) else None
        plain = isinstance(o, Obj) and getattr(d, "plain_text", False)
        if not plain and not ctx.branch(dumpable(t)):
            e = Obj(ctx, PydanticSerializationError, {"args": (opaque(ctx, "dump_msg", str),)})
            e.fields["args"][0].plain_text = True       # its message is ASCII
            raise PyExc(e)
        return it.val(dumped(t), str)
    it.models["model_dump_json"] = dump


class Line(Ext):
    """What one read gives: nothing (end), a piece without line feed (end), or a line."""
    def __init__(self, ctx, kinds=("eof", "partial", "enq", "line")):
        kind = kinds[ctx.choose_n(len(kinds), "read")]
        super().__init__(ctx, kind=kind, term=ctx.fresh_u("line"))
        self.first, self.last = ctx.fresh_int("first_byte"), ctx.fresh_int("last_byte")
        for b in (self.first, self.last): ctx.assume(z3.And(b >= 0, b <= 255))
        if kind == "partial": ctx.assume(self.last != 10)
        if kind in ("enq", "line", "any"): ctx.assume(self.last == 10)
        if kind == "enq": ctx.assume(self.first == 5)
        if kind == "line": ctx.assume(self.first != 5)
        self.pycls = bytes
    kind = property(lambda s: s.st["kind"])
    def truth(self, it): return self.kind != "eof"
    def getitem_(self, it, k):
        if isinstance(k, slice):
            if self.kind == "eof": return b""
            if (k.start, k.stop, k.step) in ((None, 1, None), (0, 1, None)): return One(self.ctx, self.first)
            if (k.start, k.stop, k.step) == (-1, None, None): return One(self.ctx, self.last)
            raise Unsupported("slice of a line")
        if k not in (0, -1): raise Unsupported("byte of a line")
        if self.kind == "eof": it.raise_py(IndexError, "index out of range")
        return SInt(self.first if k == 0 else self.last)
    def contains_(self, it, x):
        if isinstance(x, bytes) and len(x) == 1: x = x[0]
        if not isinstance(x, int): raise Unsupported("search in a line")
        if self.kind == "eof": return False
        h = z3.Function("has_byte", U, I, B)(self.st["term"], z3.IntVal(x))
        self.ctx.assume(z3.Implies(z3.Or(self.first == x, self.last == x), h))
        return SBool(h)
    def len_(self, it):
        if self.kind == "eof": return 0
        n = z3.Function("line_len", U, I)(self.st["term"])
        self.ctx.assume(n >= 1)
        self.ctx.assume(z3.Implies(n == 1, self.first == self.last))
        return SInt(n)
    def m_endswith(self, it, s): return self._with(it, s, self.last)
    def m_startswith(self, it, s): return self._with(it, s, self.first)
    def _with(self, it, s, b):
        if not isinstance(s, bytes) or len(s) != 1: raise Unsupported("startswith")
        return False if self.kind == "eof" else SBool(b == s[0])
    def eq_(self, it, o):
        if o == b"": return self.kind == "eof"
        raise Unsupported("comparison of a line")
    def m_decode(self, it, *a, **k):
        if a or k: raise Unsupported("decode with options")
        if self.kind == "eof": return ""
        if self.ctx.choose("not_utf8"):
            self.ctx.event("undecodable")
            it.raise_py(UnicodeDecodeError, "utf-8", b"", 0, 1, "invalid")
        return it.val(z3.Function("decoded", U, U)(self.st["term"]), str)


class One(Ext):
    def __init__(self, ctx, b): super().__init__(ctx, b=b)
    def eq_(self, it, o):
        if isinstance(o, bytes): return SBool(self.st["b"] == o[0]) if len(o) == 1 else False
        raise Unsupported("byte comparison")
    def getitem_(self, it, k): return SInt(self.st["b"])


class Reader(Ext):
    def m_readline(self, it):
        def go():
            it.yield_point("readline")
            if self.ctx.choose("read_fails"):
                e = [ConnectionResetError, ValueError, BrokenPipeError][self.ctx.choose_n(3, "read_error")]
                self.ctx.event("readfail", cls=e)
                it.raise_py(e, "read")
            l = Line(self.ctx)
            self.ctx.event("read", line=l)
            return l
        return Coro(go, "readline")


class Writer(Ext):
    def m_write(self, it, data): self.ctx.event("write", data=data)
    def m_drain(self, it):
        def go():
            it.yield_point("drain")
            if self.ctx.choose("drain_fails"):
                e = ConnectionResetError if self.ctx.choose("reset") else BrokenPipeError
                self.ctx.event("drainfail", cls=e)
                it.raise_py(e, "drain")
        return Coro(go, "drain")
    def m_close(self, it): self.ctx.event("closed")
    def m_is_closing(self, it): return False
    def m_wait_closed(self, it): return Coro(lambda: it.yield_point("wait_closed"), "wait_closed")


class Srv(Ext):
    class Sock(Ext):
        def m_getsockname(self, it): return opaque(self.ctx, "sockname", str)
    def g_sockets(self, it): return (Srv.Sock(self.ctx),)
    def m_close(self, it): self.ctx.event("server_closed")


def routed_text(it, srv_cls):
    """_route_request by its contract (C08): one response for the text, or cancellation."""
    def model(it, self_, text):
        def go():
            from ekosis.data_transfer_objects import ResponseDTO, SpanKey
            ctx = it.ctx
            ctx.event("answer", text=text)
            it.yield_point("answer")
            r = Obj(ctx, ResponseDTO, {"span_key": SVal(ctx.fresh_u("span_key"), SpanKey, True), "status": SInt(ctx.fresh_int("status")), "data": SVal(ctx.fresh_u("data"), None, True)})
            ctx.event("response", value=r)
            return r
        return Coro(go, "_route_request")
    from ekosis.servers.server_base import ServerBase
    it.models[ServerBase._route_request] = model


def expect_text(it, r):
    """The text of a response: its JSON form, or that of an unknown error with the same span key."""
    from dv import methods
    return dumped(methods.obj_term(it, r))


def check_answer(it, ctx, ev, tag, data_term, newline):
    """One answer event, the written text belongs to its response."""
    from ekosis.requests.status import Status
    rs = [d["value"] for k, d in ev if k == "response"]
    ok = len(rs) == 1
    ctx.oblige(f"{tag}: one response is made for the request", ok)
    if not ok: return
    r = rs[0]
    enc = z3.Function("encode", U, U)
    from dv import methods
    t = methods.obj_term(it, r)
    line = lambda s: enc(it.term(it.concat([SVal(s, str), "\n"]) if newline else SVal(s, str)))
    if ctx.branch(dumpable(t)):
        ctx.oblige(f"{tag}: the response is written as one line of JSON", data_term == line(dumped(t)))
    else:
        # not representable: an unknown-error response with the same span key
        mk = z3.Function("mk_ResponseDTO", U, U, U, U)
        m = ctx.fresh_u("msg")
        good = z3.Exists([z3.Const("m!q", U)], data_term == line(dumped(mk(it.term(r.fields["span_key"]), it.term(Status.UNHANDLED.value), z3.Const("m!q", U)))))
        ctx.oblige(f"{tag}: a response without JSON form is answered as an unknown error", good)


def connection(kind):
    def go(ctx):
        from ekosis.servers.json.tcp import TCPServer
        from ekosis.servers.json.uds import UDSServer
        cls = TCPServer if kind == "tcp" else UDSServer
        conf = Ext(ctx, host=opaque(ctx, "host", str), port=SInt(ctx.fresh_int("port")), directory=opaque(ctx, "dir", str), socket_file_name=opaque(ctx, "file", str))
        it, srv = server(ctx, cls, conf)
        install_dump(it); routed_text(it, cls)
        got = {}
        def start(it, cb, *a, **k):
            def go():
                got["cb"], got["args"] = cb, a
                return Srv(ctx)
            return Coro(go, "start_server")
        it.models[asyncio.start_server] = start
        it.models[asyncio.start_unix_server] = start
        call(it, srv, "__aenter__")
        ctx.oblige("the server listens where it is configured", "cb" in got and (it.term(got["args"][0]) == conf.st["host"].z if kind == "tcp" else True))
        if "cb" not in got: return
        rd, wr = Reader(ctx), Writer(ctx)
        it.cancellable = True
        st = {"mark": len(ctx.trace)}
        def events(): return ctx.trace[st["mark"]:]
        def head(it, fr, K): st["mark"] = len(ctx.trace)
        def one(ev, tag, complete):
            reads = [d["line"] for k, d in ev if k == "read"]
            writes = [d["data"] for k, d in ev if k == "write"]
            answers = [d for k, d in ev if k == "answer"]
            if len(reads) > 1: raise Unsupported("several reads in one iteration")
            line = reads[0] if reads else None
            if line is None or line.kind in ("eof", "partial"):
                ctx.oblige(f"{tag}: no answer without a complete line", not writes and not answers, line and line.kind)
                return line
            if line.kind == "enq":
                ctx.oblige(f"{tag}: an enquiry is not handled as a request", not answers)
                if complete or writes: ctx.oblige(f"{tag}: an enquiry gets an acknowledgement", writes == [b"\x06\n"], repr(writes))
                return line
            if len(writes) > 1: raise Unsupported("an answer written in pieces")
            ctx.oblige(f"{tag}: a request is handled at most once", len(answers) <= 1)
            for a in answers: ctx.oblige(f"{tag}: the line's text is handled", peel(it.term(a["text"])) == z3.Function("decoded", U, U)(line.st["term"]))
            if complete: ctx.oblige(f"{tag}: a request gets one answer", len(writes) == 1 and len(answers) == 1)
            if writes and answers: check_answer(it, ctx, ev, tag, it.term(writes[0]), True)
            elif writes: ctx.oblige(f"{tag}: an answer follows from handling the request", False)
            return line
        def back(it, fr, K):
            ev = events()
            l = one(ev, "iteration", True)
            ctx.oblige("iteration: goes on only after a complete line", l is not None and l.kind in ("enq", "line"))
            ctx.oblige("iteration: the connection stays open", not any(k == "closed" for k, d in ev))
        it.loop_spec = LoopSpec(on_head=head, on_back=back, exact=True, body_paths=2000)
        exc = None
        try: it.await_(it.call(got["cb"], [rd, wr], {}))
        except PyExc as e: exc = e
        it.cancellable = False
        if not any(k in ("read", "readfail", "cancelled") for k, d in ctx.trace): raise Unsupported("the connection was not served")
        ev = events()
        if exc is None:
            l = one(ev, "last iteration", not any(k in ("readfail", "drainfail", "undecodable") for k, d in ev))
            fail = [d["cls"] for k, d in ev if k in ("readfail", "drainfail")]
            ctx.oblige("the connection ends only when it is closed or fails", l is None or l.kind in ("eof", "partial") or bool(fail) or any(k == "undecodable" for k, d in ev), l and l.kind)
            ctx.oblige("an ended connection is closed", any(k == "closed" for k, d in ev))
        else:
            one(ev, "failing iteration", False)
            why = [k for k, d in ev if k in ("readfail", "drainfail", "cancelled", "undecodable")]
            ctx.oblige("a connection fails only for a reason of its own", bool(why), repr(exc.val) + str(getattr(exc.val, "fields", "")))
    return go


class Transport(Ext):
    def m_sendto(self, it, data, addr=None): self.ctx.event("sendto", data=data, addr=addr)
    def m_close(self, it): pass


class Lock(Ext):
    pycls = asyncio.Lock
    def m___aenter__(self, it): return Coro(lambda: it.yield_point("lock"), "lock")
    def m___aexit__(self, it, *a): return Coro(lambda: False, "unlock")
    def m_acquire(self, it): return Coro(lambda: (it.yield_point("lock"), True)[1], "lock")
    def m_release(self, it): return None


class StopServe(BaseException): pass


def datagrams(ctx):
    from ekosis.servers.json.udp import UDPServer
    conf = Ext(ctx, host=opaque(ctx, "host", str), port=SInt(ctx.fresh_int("port")))
    it, srv = server(ctx, UDPServer, conf)
    install_dump(it); routed_text(it, UDPServer)
    it.models[asyncio.Lock] = lambda it: Lock(ctx)
    got = {}
    class Loop(C.LoopExt):
        def m_create_datagram_endpoint(self, it, factory, **k):
            def go():
                got["proto"] = it.call(factory, [], {})
                raise StopServe()
            return Coro(go, "create_datagram_endpoint")
    loop = Loop(ctx)
    it.models[asyncio.get_running_loop] = lambda it: loop
    call(it, srv, "__aenter__")
    try: call(it, srv, "serve")
    except StopServe: pass
    if "proto" not in got: raise Unsupported("no datagram endpoint")
    p, tr = got["proto"], Transport(ctx)
    it.call(it.getattr(p, "connection_made"), [tr], {})
    def other(it, label):
        if ctx.choose("other_datagram"):
            st["n"] += 1
            ctx.event("other", begin=True)
            l2 = Line(ctx)
            try: it.call(it.getattr(p, "datagram_received"), [l2, opaque(ctx, "other_addr")], {})
            except PyExc: pass
            ctx.event("other", begin=False)
    st = {"n": 0}
    line, addr = Line(ctx), opaque(ctx, "addr")
    mark = len(ctx.trace)
    exc = None
    try: it.call(it.getattr(p, "datagram_received"), [line, addr], {})
    except PyExc as e: exc = e
    ev = ctx.trace[mark:]
    tasks = [d["task"] for k, d in ev if k == "task"]
    sends = [d for k, d in ev if k == "sendto"]
    if exc is not None:
        ctx.oblige("a datagram fails only when it is no text", any(k == "undecodable" for k, d in ev), repr(exc.val))
        ctx.oblige("a failing datagram gets no answer", not sends and not tasks)
        return
    if line.kind in ("eof", "partial"):
        ctx.oblige("an incomplete datagram gets no answer", not sends and not tasks)
        return
    if line.kind == "enq" or ctx.branch(line.first == 6):     # enquiry: answered at once or handled, not both
        for s in sends: ctx.oblige("an answer goes to the sender", it.term(s["addr"]) == addr.z)
        return
    ctx.oblige("a request is taken for handling once", len(tasks) == 1 and not sends)
    if len(tasks) != 1: return
    it.on_yield, it.cancellable = other, True
    mark = len(ctx.trace)
    exc = None
    try: tasks[0].run(it)
    except PyExc as e: exc = e
    it.on_yield, it.cancellable = None, False
    ev, skip = [], False
    for k, d in ctx.trace[mark:]:
        if k == "other": skip = d["begin"]
        elif not skip: ev.append((k, d))
    sends = [d for k, d in ev if k == "sendto"]
    answers = [d for k, d in ev if k == "answer"]
    if exc is not None:
        ctx.oblige("a request fails only when cancelled", any(k == "cancelled" for k, d in ev), repr(exc.val))
        ctx.oblige("a cancelled request gets no answer", not sends)
        return
    ctx.oblige("a datagram request is handled once", len(answers) == 1)
    for a in answers: ctx.oblige("the datagram's text is handled", peel(it.term(a["text"])) == z3.Function("decoded", U, U)(line.st["term"]))
    ok = len(sends) == 1
    ctx.oblige("a datagram request gets one answer", ok)
    if ok:
        ctx.oblige("the answer goes to the sender of the request", it.term(sends[0]["addr"]) == addr.z)
        check_answer(it, ctx, ev, "datagram", it.term(sends[0]["data"]), False)
