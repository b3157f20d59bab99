"""Contracts of the clients: results and exceptions (C10), retries and pairing of responses (C11)."""
import ast, asyncio, json, socket
import pydantic
import z3
from dv.core import *
from dv.interp import fn_info, MDict
from dv.loops import LoopSpec
from . import common as C
from .common import call, key, opaque, TaskExt
from . import server as S
from .server import Line, peel, parse, is_json, is_mapping, install_json, install_dump, dumped, dumpable

RETRYABLE = (TimeoutError, ConnectionResetError, ConnectionAbortedError, BrokenPipeError)
decoded = z3.Function("decoded", U, U)


class Reader(Ext):
    pycls = asyncio.StreamReader
    def __init__(self, ctx, gen): super().__init__(ctx, gen=gen)
    @classmethod
    def fresh_(cls, it): return cls(it.ctx, SInt(it.ctx.fresh_int("gen")))
    def m_readline(self, it): return Coro(lambda: it.net.read(self), "readline")


class Writer(Ext):
    pycls = asyncio.StreamWriter
    def __init__(self, ctx, gen): super().__init__(ctx, gen=gen)
    @classmethod
    def fresh_(cls, it): return cls(it.ctx, SInt(it.ctx.fresh_int("gen")))
    def m_write(self, it, data): it.net.write(self, data)
    def m_drain(self, it): return Coro(lambda: it.net.fallible("drain"), "drain")
    def m_close(self, it): self.ctx.event("closed")
    def m_is_closing(self, it): return SBool(self.ctx.fresh_bool("closing"))
    def m_wait_closed(self, it): return Coro(lambda: it.net.fallible("wait_closed"), "wait_closed")


class Transport(Ext):
    pycls = asyncio.DatagramTransport
    def __init__(self, ctx, gen): super().__init__(ctx, gen=gen)
    @classmethod
    def fresh_(cls, it): return cls(it.ctx, SInt(it.ctx.fresh_int("gen")))
    def m_sendto(self, it, data, addr=None): it.net.write(self, data)
    def m_close(self, it): self.ctx.event("closed")
    def m_is_closing(self, it): return SBool(self.ctx.fresh_bool("closing"))


class Fut(C.FutureExt):
    """asyncio.Future the datagram protocol waits on."""
    def __init__(self, ctx): Ext.__init__(self, ctx, done=False, value=None, cancelled=False)
    def m_set_result(self, it, v):
        if self.st["done"] is True: it.raise_py(asyncio.InvalidStateError, "invalid state")
        self.set("done", True); self.set("value", v)
    def m_cancelled(self, it): return self.st["cancelled"]
    def m_cancel(self, it, *a): self.set("done", True); self.set("cancelled", True); return True
    def m_result(self, it): return self.st["value"]
    def await_(self, it): return it.net.arrive(self)


class Lock(Ext):
    pycls = asyncio.Lock
    def __init__(self, ctx): super().__init__(ctx, held=False)
    def acquire(self, it):
        if self.st["held"] is not False: raise Unsupported("lock taken twice")
        it.yield_point("lock")
        it.net.acquired()
        self.set("held", True)
        return True
    def m___aenter__(self, it): return Coro(lambda: self.acquire(it) and None, "lock")
    def m___aexit__(self, it, *a): return Coro(lambda: self.m_release(it) or False, "unlock")
    def m_acquire(self, it): return Coro(lambda: self.acquire(it), "lock")
    def m_release(self, it): self.set("held", False)
    def m_locked(self, it): return True if self.st["held"] else SBool(self.ctx.fresh_bool("locked"))


class Grabbed(Exception):
    def __init__(self, task): self.task = task


class Net:
    """The wire: at most one current connection (generation); responses come in the order of the requests, and a
    connection on which requests are outstanding gives the oldest one's response first."""
    def __init__(self, ctx, it, datagram=False, shared=False):
        self.ctx, self.it, self.datagram, self.shared = ctx, it, datagram, shared
        it.net = self
        zero = lambda: SInt(z3.IntVal(0))
        self.g = Ext(ctx, cur=SInt(ctx.fresh_int("gen")), out=zero(), writes=zero(), attempts=zero(), other=SBool(z3.BoolVal(False)),
                     s_flag=SBool(z3.BoolVal(False)), s_out=zero(), s_cur=zero())
        self.client = self.lock = None
        self.faulty = True
        self.names = {}
        it.models[asyncio.Lock] = self.new_lock
        it.models[asyncio.wait_for] = self.wait_for
        it.models[asyncio.open_connection] = self.open
        it.models[asyncio.open_unix_connection] = self.open
        it.models[asyncio.Future] = lambda it, *a, **k: Fut(ctx)
        net = self
        class Loop(C.LoopExt):
            def m_create_datagram_endpoint(self, it, factory, **k): return net.open_datagram(factory, k)
            def m_create_future(self, it): return Fut(self.ctx)
            def m_create_task(self, it, c, **k): return net.task(c)
        loop = Loop(ctx)
        it.models[asyncio.create_task] = lambda it, c, **k: net.task(c)
        it.models[asyncio.get_running_loop] = it.models[asyncio.get_event_loop] = lambda it: loop

    grab = False
    def task(self, c):
        t = TaskExt(self.ctx, coro=c)
        if self.grab: raise Grabbed(t)
        return t

    def new_lock(self, it, *a):
        l = Lock(self.ctx)
        if self.lock is not None: raise Unsupported("several locks")
        self.lock = l
        return l

    # ---- faults
    def fail(self, cls, label=None):
        """An attempt is a request written or a connection that could not be made."""
        if label == "open": self.attempt()
        self.ctx.event("fail", cls=cls)

    def attempt(self): self.g.set("attempts", SInt(z3.simplify(self.g.st["attempts"].z + 1)))

    def fallible(self, label, classes=(ConnectionResetError, BrokenPipeError)):
        ctx, it = self.ctx, self.it
        it.yield_point(label)
        if self.faulty and ctx.choose(label + "_fails"):
            n = ctx.choose_n(len(classes) + 1, label + "_error")
            if n < len(classes):
                self.fail(classes[n], label)
                it.raise_py(classes[n], label)
            e = UExc(ctx, Exception, label, excluded=list(RETRYABLE) + self.own_exceptions())
            self.fail(None, label)
            raise PyExc(e)

    def own_exceptions(self):
        from ekosis.exceptions import CommunicationsEmptyResponse
        return [CommunicationsEmptyResponse]

    # ---- connections
    def connect(self):
        g = self.ctx.fresh_int("gen")
        self.g.set("cur", SInt(g)); self.g.set("out", SInt(z3.IntVal(0)))
        return SInt(g)

    def open(self, it, *a, **k):
        def go():
            self.fallible("open", (ConnectionRefusedError, TimeoutError, ConnectionResetError, ConnectionAbortedError))
            self.ctx.event("open", args=a)
            g = self.connect()
            return (Reader(self.ctx, g), Writer(self.ctx, g))
        return Coro(go, "open_connection")

    def open_datagram(self, factory, k):
        def go():
            self.fallible("open", (OSError, TimeoutError))
            self.ctx.event("open", args=(k.get("remote_addr"),))
            g = self.connect()
            t = Transport(self.ctx, g)
            p = self.it.call(factory, [], {})
            self.it.call(self.it.getattr(p, "connection_made"), [t], {})
            return (t, p)
        return Coro(go, "create_datagram_endpoint")

    def write(self, end, data):
        self.ctx.event("write", data=data)
        g = self.g
        g.set("writes", SInt(z3.simplify(g.st["writes"].z + 1)))
        self.attempt()
        here = end.st["gen"].z == g.st["cur"].z
        g.set("out", SInt(z3.If(here, g.st["out"].z + 1, g.st["out"].z)))

    def own(self, end):
        """Is what arrives now the response to this call's last request?"""
        g = self.g
        r = self.ctx.branch(z3.And(end.st["gen"].z == g.st["cur"].z, g.st["out"].z == 1))
        g.set("out", SInt(z3.If(g.st["out"].z > 0, g.st["out"].z - 1, g.st["out"].z)))
        return r

    def read(self, rd):
        ctx, it = self.ctx, self.it
        self.fallible("readline", (ConnectionResetError, BrokenPipeError, ValueError))
        l = Line(ctx, ("any", "eof", "partial") if self.faulty else ("any",))
        if l.kind != "any":
            # the rest never comes: nothing is outstanding on that connection any more
            self.fail("eof")
            g = self.g
            g.set("out", SInt(z3.If(rd.st["gen"].z == g.st["cur"].z, z3.IntVal(0), g.st["out"].z)))
            ctx.event("read", line=l, own=not self.shared)
            return l
        own = self.own(rd)
        ctx.event("read", line=l, own=own)
        return l

    def arrive(self, fut):
        """A response arrives for the datagram transport in use."""
        ctx, it = self.ctx, self.it
        it.yield_point("response")
        if fut.st["done"] is not True:
            if not ctx.branch(self.g.st["out"].z >= 1): raise PathEnd()          # nothing ever arrives
            p = self.proto()
            l = Line(ctx, ("any",))
            own = self.own(it.getattr(p, "transport"))
            ctx.event("read", line=l, own=own)
            try: it.call(it.getattr(p, "datagram_received"), [l, opaque(ctx, "address")], {})
            except PyExc: raise PathEnd()                                         # reported to the loop's handler: the waiter times out
            if fut.st["done"] is not True: raise PathEnd()
        return fut.st["value"]

    def proto(self):
        return self.client.fields[self.names["protocol"]]

    def wait_for(self, it, c, timeout=None):
        def go():
            if timeout is None: return it.await_(c)
            if self.faulty and self.ctx.choose("timeout"):
                it.yield_point("wait")
                if isinstance(c, Fut): c.m_cancel(it)
                elif isinstance(c, Coro): c.done = True
                self.fail(TimeoutError, "open" if isinstance(c, Coro) and c.label in ("open_connection", "create_datagram_endpoint") else None)
                it.raise_py(TimeoutError)
            return it.await_(c)
        return Coro(go, "wait_for")

    # ---- rely and guarantee of the calls that share a client
    def mutable(self):
        """Fields of the client assigned outside the constructor."""
        out = set()
        for c in self.client.cls.__mro__:
            for f in vars(c).values():
                f = getattr(f, "__func__", f)
                if not hasattr(f, "__code__") or f.__name__ == "__init__": continue
                try: info = fn_info(f)
                except Exception: continue
                if info is None: continue
                for n in ast.walk(info.node):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                                nm = x.attr
                                if nm.startswith("__") and not nm.endswith("__") and info.mangle: nm = f"_{info.mangle.lstrip('_')}{nm}"
                                out.add(nm)
        return [n for n in self.client.fields if n in out]

    def adopt(self, client):
        """Take the client (just constructed) into an arbitrary state between calls."""
        self.client = client
        F = client.fields
        flags = [n for n in F if isinstance(F[n], bool) and any(w in n.lower() for w in ("connected", "initiali"))]
        if len(flags) != 1 or self.lock is None: raise Unsupported("client without a connection flag or lock")
        self.names["flag"] = flags[0]
        self.ctx.oblige("a new client uses no connection", F[flags[0]] is False, rep=True)
        def find(*w): 
            r = [n for n in F if any(x in n.lower() for x in w)]
            if len(r) != 1: raise Unsupported(f"client without a field for {w}")
            return r[0]
        if self.datagram: self.names["transport"], self.names["protocol"] = find("transport"), find("protocol")
        else: self.names["reader"], self.names["writer"] = find("reader"), find("writer")
        self.mut = [n for n in self.mutable() if n not in self.names.values()]
        self.havoc()

    def set(self, n, v): self.ctx.setd(self.client.fields, n, v, owner=self.client)
    def flag(self):
        v = self.client.fields[self.names["flag"]]
        return v.z if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def ends(self):
        F = self.client.fields
        if self.datagram:
            p = F[self.names["protocol"]]
            return [F[self.names["transport"]], p.fields["transport"] if isinstance(p, Obj) else None]
        return [F[self.names["reader"]], F[self.names["writer"]]]

    def inv(self):
        """A connection marked as usable is the current one and has no response outstanding."""
        es = self.ends()
        if any(not isinstance(e, (Reader, Writer, Transport)) for e in es): return z3.Not(self.flag())
        return z3.Implies(self.flag(), z3.And(self.g.st["out"].z == 0, *[e.st["gen"].z == self.g.st["cur"].z for e in es]))

    def guarantee(self):
        """While another call is in its exchange nothing is done with the connection; else the invariant holds."""
        g = self.g.st
        quiet = z3.And(g["out"].z == g["s_out"].z, g["cur"].z == g["s_cur"].z, z3.Implies(self.flag(), g["s_flag"].z))
        return z3.If(g["other"].z, quiet, self.inv())

    def havoc_fields(self):
        ctx = self.ctx
        for n in self.mut:
            v = self.client.fields[n]
            if isinstance(v, (bool, SBool)): self.set(n, SBool(ctx.fresh_bool("shared")))
            elif isinstance(v, (int, SInt, float)): self.set(n, SInt(ctx.fresh_int("shared")))
            elif isinstance(v, TaskExt): v.set("done", SBool(ctx.fresh_bool("done")))
            elif v is None or isinstance(v, Ext): pass
            else: raise Unsupported(f"shared field {n}")

    def havoc(self):
        ctx, it, g = self.ctx, self.it, self.g
        self.havoc_fields()
        self.set(self.names["flag"], SBool(ctx.fresh_bool("connected")))
        g.set("cur", SInt(ctx.fresh_int("gen")))
        out = ctx.fresh_int("out"); ctx.assume(out >= 0)
        g.set("out", SInt(out))
        if self.datagram:
            from ekosis.clients.datagram_client_base import DatagramProtocolClient
            p = it.call(DatagramProtocolClient, [SInt(ctx.fresh_int("timeout"))], {})
            it.call(it.getattr(p, "connection_made"), [Transport.fresh_(it)], {})
            self.set(self.names["protocol"], p); self.set(self.names["transport"], Transport.fresh_(it))
        else:
            self.set(self.names["reader"], Reader.fresh_(it)); self.set(self.names["writer"], Writer.fresh_(it))
        g.set("other", SBool(ctx.fresh_bool("other_exchange")))
        g.set("s_flag", SBool(self.flag())); g.set("s_out", g.st["out"]); g.set("s_cur", g.st["cur"])
        ctx.assume(z3.Or(g.st["other"].z, self.inv()))

    def acquired(self): self.ctx.assume(z3.Not(self.g.st["other"].z))

    def on_yield(self, it, label):
        if not self.shared: self.havoc_fields(); return
        if self.lock.st["held"] is True:
            self.set(self.names["flag"], SBool(z3.And(self.flag(), self.ctx.fresh_bool("still"))))
            return
        self.ctx.oblige("between exchanges the connection in use has no response outstanding", self.guarantee())
        self.havoc()

    # ---- templates
    def t_shared(self, it, k, v, loc): return self.guarantee() if self.shared and loc.obj is self.g and loc.name == "out" else None
    def t_attempts(self, it, k, v, loc): return v.z == k if loc.obj is self.g and loc.name == "attempts" and isinstance(v, SInt) else None
    def t_attempts_max(self, it, k, v, loc): return v.z < self.maxr if loc.obj is self.g and loc.name == "attempts" and isinstance(v, SInt) else None
    def t_budget(self, it, k, v, loc): return k < self.maxr if loc.obj is self.g and loc.name == "attempts" else None
    def num(self, v): return None if isinstance(v, bool) or not isinstance(v, (int, SInt)) else v.z if isinstance(v, SInt) else z3.IntVal(v)
    def t_down(self, it, k, v, loc):
        v = self.num(v)
        return None if v is None or loc.obj is self.g else v == self.maxr - k
    def t_up(self, it, k, v, loc):
        v = self.num(v)
        return None if v is None or loc.obj is self.g else v == k + 1
    def templates(self): return [self.t_shared, self.t_attempts, self.t_attempts_max, self.t_budget, self.t_down, self.t_up]


KINDS = {"transient_tcp": ("transient_tcp", "TransientTCPClient"), "transient_uds": ("transient_uds", "TransientUDSClient"),
         "persisted_tcp": ("persisted_tcp", "PersistedTCPClient"), "persisted_uds": ("persisted_uds", "PersistedUDSClient"), "udp": ("udp", "UDPClient")}


def make(ctx, kind, faulty=True):
    import importlib
    mod, cn = KINDS[kind]
    cls = getattr(importlib.import_module("ekosis.clients.json." + mod), cn)
    it = C.interp(ctx)
    net = Net(ctx, it, datagram=kind == "udp", shared=not kind.startswith("transient"))
    net.faulty = faulty
    it.generated = []
    from ekosis.data_transfer_objects import SpanKey
    def generate(it, cls):
        k = key(ctx, "generated_key"); it.generated.append(k.z); return k
    it.models[SpanKey.generate.__func__] = generate
    net.maxr = maxr = ctx.fresh_int("max_retries")
    t = ctx.fresh_int("timeout")
    ctx.assume(z3.And(maxr >= 1, t >= 1))
    kw = dict(timeout=SInt(t), max_retries=SInt(maxr), retry_delay=SInt(ctx.fresh_int("delay")))
    addr = {"server_path": opaque(ctx, "path", str)} if kind.endswith("uds") else {"server_host": opaque(ctx, "host", str), "server_port": SInt(ctx.fresh_int("port"))}
    if kind.startswith("persisted"):
        hb = ctx.fresh_int("heartbeat"); ctx.assume(hb >= 0); kw["heartbeat_period"] = SInt(hb)
    client = it.call(cls, [], {**addr, **kw})
    install_json(it, ())
    if net.shared: net.adopt(client)
    else:
        net.client = client
        net.mut = net.mutable()
        net.havoc_fields()
    it.on_yield = net.on_yield
    return it, net, client, maxr, addr


def retries(kind):
    """One call of the client among any others, for every fault sequence."""
    def go(ctx):
        from ekosis.exceptions import CommunicationsMaxRetriesReached, CommunicationsNonRetryable
        it, net, client, maxr, addr = make(ctx, kind)
        if it.lookup(client.cls, "_send_message_retry_loop") is None: raise Unsupported("no retry loop")
        it.cancellable = True
        st = {"mark": len(ctx.trace)}
        def head(it, fr, K): st["mark"] = len(ctx.trace)
        def back(it, fr, K):
            fs = [d["cls"] for k, d in ctx.trace[st["mark"]:] if k == "fail"]
            ctx.oblige("only retryable failures are retried", bool(fs) and fs[-1] in retryable, repr(fs))
        retryable = (TimeoutError,) if kind == "udp" else RETRYABLE + (("eof",) if net.shared else ())
        it.loop_spec = LoopSpec(templates=net.templates(), on_head=head, on_back=back, exact=True, body_paths=3000)
        text = opaque(ctx, "request_text", str)
        exc = r = None
        try: r = call(it, client, "_send_message_retry_loop", text)
        except PyExc as e: exc = e.val
        it.cancellable = False
        ev = ctx.trace[st["mark"]:]
        if net.shared: ctx.oblige("after a call the connection in use has no response outstanding", net.guarantee())
        g = net.g.st
        ctx.oblige("the number of attempts is within the budget", g["attempts"].z <= maxr)
        enc = z3.Function("encode", U, U)
        for k, d in ev:
            if k == "write": ctx.oblige("what is sent is the request", it.term(d["data"]) == enc(text.z))
            if k == "open":
                want = [addr[n] for n in addr]
                got = list(d["args"][0]) if kind == "udp" and isinstance(d["args"][0], tuple) else list(d["args"])
                ctx.oblige("the connection is made to the configured address", len(got) == len(want) and all(it.term(a).eq(it.term(b)) for a, b in zip(got, want)))
        fails = [d["cls"] for k, d in ev if k == "fail"]
        order = [k for k, d in ev if k in ("fail", "write")]
        if exc is None:
            lines = [d["line"] for k, d in ev if k == "read" and d["own"]]
            ctx.oblige("a call gives the response to its own request", r is not None and bool(lines) and z3.Or(*[it.term(r) == decoded(l.st["term"]) for l in lines]), repr(r))
            return
        if any(k == "cancelled" for k, d in ev):
            ctx.oblige("cancellation is passed on", isinstance(exc, Obj) and exc.cls is asyncio.CancelledError, repr(exc))
            return
        ok = isinstance(exc, Obj) and exc.cls in (CommunicationsMaxRetriesReached, CommunicationsNonRetryable)
        ctx.oblige("a failed call ends with a communications exception", ok, repr(exc) + str(getattr(exc, "fields", "")))
        if not ok: return
        if exc.cls is CommunicationsMaxRetriesReached:
            ctx.oblige("retries are exhausted only when the last attempt failed", bool(order) and order[-1] == "fail", repr(order))
            ctx.oblige("retries are exhausted only after the budgeted number of failed attempts", g["attempts"].z == maxr)
        else:
            ctx.oblige("a call gives up at once only for a failure that is not retryable", any(k == "undecodable" for k, d in ev) or bool(fails) and fails[-1] not in retryable, repr(fails))
    return go


def heartbeat(kind):
    def go(ctx):
        it, net, client, maxr, addr = make(ctx, kind)
        it.cancellable = False
        mark = len(ctx.trace)
        # a call starts the heartbeat before its exchange
        net.faulty, net.grab, task = False, True, None
        try: call(it, client, "_send_message_retry_loop", opaque(ctx, "request_text", str))
        except Grabbed as g: task = g.task
        except PyExc: pass
        if task is None: raise PathEnd()
        net.grab = False
        net.faulty, it.cancellable = True, True
        net.havoc()
        def back(it, fr, K): ctx.oblige("heartbeat: sends enquiries only", all(d["data"] == b"\x05\n" for k, d in ctx.trace[st["mark"]:] if k == "write"))
        st = {"mark": len(ctx.trace)}
        def head(it, fr, K): st["mark"] = len(ctx.trace)
        it.loop_spec = LoopSpec(templates=[net.t_shared], on_head=head, on_back=back, exact=True, body_paths=3000)
        try: task.run(it)
        except PyExc: pass
        ctx.oblige("heartbeat: leaves no response outstanding on the connection in use", net.guarantee())
    return go


# ---------------------------------------------------------------- C10
new_D = z3.Function("new_ResponseDTO", U, U)
valid_D = z3.Function("valid_ResponseDTO", U, B)


def mentions(t, sub):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.eq(sub): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo.extend(x.children())
    return False


def expected_exceptions():
    from ekosis.requests.status import Status as S
    from ekosis import exceptions as E
    return {S.PROTOCOL_PARSING_ERROR.value: E.ProtocolParsingException, S.CLIENT_DENIED.value: E.ClientDeniedException, S.PYDANTIC_VALIDATION_ERROR.value: E.PydanticValidationException,
            S.ROUTE_KEY_UNKNOWN.value: E.RouteKeyUnknownException, S.APPLICATION_BUSY.value: E.ServerBusyException, S.PROCESSING_FAILURE.value: E.ProcessingException, S.UNHANDLED.value: E.UnhandledException}


def result(kind, with_key):
    """send_message for every response; the exchange by the contract of the retry loop (C11)."""
    def go(ctx):
        from ekosis.data_transfer_objects import RequestDTO, SpanKey
        from ekosis.exceptions import CommunicationsMaxRetriesReached, CommunicationsNonRetryable, UnknownStatusCodeException
        it, net, client, maxr, addr = make(ctx, kind, faulty=False)
        install_json(it, ())
        install_dump(it)
        fn = it.lookup(client.cls, "_send_message_retry_loop")
        if fn is None or it.lookup(client.cls, "send_message") is None: raise Unsupported("no retry loop")
        text = opaque(ctx, "response_text", str)
        def exchange(it, self, request):
            def run():
                ctx.event("sent", request=request)
                it.yield_point("exchange")
                n = ctx.choose_n(3, "exchange")
                if n:
                    c = (CommunicationsMaxRetriesReached, CommunicationsNonRetryable)[n - 1]
                    e = it.call(c, [], {})
                    ctx.event("comms", exc=e)
                    raise PyExc(e)
                return text
            return Coro(run, "exchange")
        it.models[fn] = exchange
        rk, data, T = opaque(ctx, "route", str), opaque(ctx, "data", pydantic.BaseModel), C.payload_type()
        sk = key(ctx, "given_key") if with_key else None
        exc = r = None
        try: r = call(it, client, "send_message", rk, data, T, sk)
        except PyExc as e: exc = e.val
        ev = ctx.trace
        sent = [d["request"] for k, d in ev if k == "sent"]
        ctx.oblige("a request is exchanged at most once by a call", len(sent) <= 1)
        for q in sent:
            pieces = getattr(q, "pieces", None) or [q]
            t = it.term(pieces[0])
            if not (z3.is_app(t) and t.decl().name() == "response_json") or any(not isinstance(x, str) for x in pieces[1:]): raise Unsupported("request text made in an unknown way")
            ctx.oblige("a request is one line", len(pieces) == 2 and pieces[1] == "\n", repr(pieces))
            doc = t.arg(0)
            if fieldterm(doc, "data") is None: raise Unsupported("request document of an unknown form")
            def field(n): return fieldterm(doc, n)
            ks = [field("span_key")] if field("span_key") is not None else []
            ctx.oblige("a request carries the given route key", field("route_key") is not None and field("route_key") == rk.z, str(doc))
            ctx.oblige("a request carries the given payload", field("data") is not None and field("data") == data.z)
            if with_key: ctx.oblige("a request carries the given span key", bool(ks) and ks[0] == sk.z)
            else: ctx.oblige("a request without a given span key gets a fresh one", bool(ks) and any(ks[0].eq(g) for g in it.generated), str(ks))
        if any(k == "comms" for k, d in ev):
            ctx.oblige("a communications failure is passed on", exc is not None and exc is [d["exc"] for k, d in ev if k == "comms"][0])
            return
        if not sent:
            ctx.oblige("a request that can not be sent is refused", exc is not None)
            return
        doc = parse(text.z)
        good = z3.And(is_json(text.z), is_mapping(doc), valid_D(doc))
        if not ctx.branch(good):
            ctx.oblige("an unreadable response gives no result", exc is not None)
            return
        resp = new_D(doc)
        status = z3.Function("fld_ResponseDTO_status", U, I)(resp)
        rdata = z3.Function("fld_ResponseDTO_data", U, U)(resp)
        if ctx.branch(status == 0):
            fits = z3.And(is_mapping(rdata), C.valid_T(rdata))
            if ctx.branch(fits): ctx.oblige("a success response gives its payload as the requested type", exc is None and r is not None and it.term(r) == C.new_T(rdata), repr(exc))
            else: ctx.oblige("a payload that does not fit the requested type is an error", exc is not None and (isinstance(exc, Obj) and exc.cls in (pydantic.ValidationError, TypeError)), repr(exc))
            return
        ctx.oblige("a failure response raises", exc is not None)
        if exc is None: return
        text_of = it.term(it.str_(SVal(rdata, None, True)))
        for v, c in expected_exceptions().items():
            if ctx.branch(status == v):
                ctx.oblige("the exception belongs to the status", isinstance(exc, Obj) and exc.cls is c, f"{v}: {exc!r}")
                break
        else: ctx.oblige("an unlisted status raises the unknown status exception", isinstance(exc, Obj) and exc.cls is UnknownStatusCodeException, repr(exc))
        m = exc.fields.get("message") if isinstance(exc, Obj) else None
        ctx.oblige("the exception carries the response's message", m is not None and mentions(it.term(m), text_of), str(m))
    return go


def fieldterm(doc, name):
    """Argument of a document's constructor term mk_RequestDTO(...) for a field."""
    from ekosis.data_transfer_objects import RequestDTO
    n = list(RequestDTO.model_fields)
    if not z3.is_app(doc) or doc.num_args() != len(n): return None
    return doc.arg(n.index(name))


class Client(Ext):
    """A client by its contract: gives a value or raises."""
    def m_send_message(self, it, *a, **kw):
        names = ("route_key", "data", "response_dto_type", "span_key")
        args = dict(zip(names, a)); args.update(kw)
        def go():
            self.ctx.event("send", args=args)
            it.yield_point("send"); it.may_raise("send")
            v = opaque(self.ctx, "response")
            self.ctx.event("sent", value=v)
            return v
        return Coro(go, "send_message")


def passed_on(ctx, it, r, exc, rk, data, T, sk):
    sends = [d["args"] for k, d in ctx.trace if k == "send"]
    ctx.oblige("one message is sent by a call", len(sends) == 1)
    if len(sends) != 1: return
    a = sends[0]
    ctx.oblige("sent to the sender's route", "route_key" in a and it.term(a["route_key"]) == it.term(rk))
    ctx.oblige("the given payload is sent", "data" in a and it.term(a["data"]) == data.z)
    ctx.oblige("the declared response type is asked for", a.get("response_dto_type") is T, repr(a))
    ctx.oblige("the given span key is used", it.term(a["span_key"]) == sk.z if sk is not None and a.get("span_key") is not None else a.get("span_key") is None and sk is None, repr(a))
    vals = [d["value"] for k, d in ctx.trace if k == "sent"]
    if vals: ctx.oblige("the client's result is given", exc is None and r is not None and it.term(r) == vals[0].z)
    else: ctx.oblige("the client's exception is passed on", exc is not None and exc in [d["exc"] for k, d in ctx.trace if k == "raised"])


def send_data(with_key):
    def go(ctx):
        from ekosis.sending.sender_base import SenderBase
        class S(SenderBase):
            async def send(self, *a, **k): pass
        it = C.interp(ctx)
        rk, data, T, sk = opaque(ctx, "route", str), opaque(ctx, "data", pydantic.BaseModel), C.payload_type(), key(ctx) if with_key else None
        o = it.call(SenderBase, [Client(ctx), rk, C.payload_type(), T], {})
        exc = r = None
        try: r = call(it, o, "send_data", data, *([sk] if with_key else []))
        except PyExc as e: exc = e.val
        passed_on(ctx, it, r, exc, rk, data, T, sk)
        ctx.oblige("the route key is reported", it.term(call(it, o, "get_route_key")) == rk.z)
    return go


def decorated(with_key):
    def go(ctx):
        from ekosis.sending.sender import sender
        it = C.interp(ctx)
        rk, data, T, sk = opaque(ctx, "route", str), opaque(ctx, "data", pydantic.BaseModel), C.payload_type(), key(ctx) if with_key else None
        args, kw = [opaque(ctx, "a"), opaque(ctx, "b")], {"x": opaque(ctx, "x")}
        if with_key: kw["span_key"] = sk
        def user(it, *a, **k):
            ctx.event("user", a=a, k=k)
            def run():
                it.yield_point("user")
                return data
            return Coro(run, "user")
        from dv.interp import ModelFn
        w = it.call(it.call(sender, [Client(ctx), rk, T], {}), [ModelFn(user, "user")], {})
        exc = r = None
        try: r = it.await_(it.call(w, list(args), dict(kw)))
        except PyExc as e: exc = e.val
        u = [d for k, d in ctx.trace if k == "user"]
        ctx.oblige("the message is made once, from the given arguments", len(u) == 1 and len(u[0]["a"]) == 2 and all(x is y for x, y in zip(u[0]["a"], args)) and set(u[0]["k"]) == set(kw) and all(u[0]["k"][n] is kw[n] for n in kw))
        passed_on(ctx, it, r, exc, rk, data, T, sk)
    return go
