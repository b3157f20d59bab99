"""Run-time contracts of the clients: the real client classes on an event loop with virtual time and in-memory
connections, against a scripted server (late, missing, cut-off responses, resets, refused connections)."""
import asyncio, heapq, itertools, json, random, selectors
from dv import env
from .queue_rt import key

TIMEOUT = 1.0


class Stuck(Exception): pass


class Sel(selectors.SelectSelector):
    loop = None
    def select(self, timeout=None):
        r = super().select(0)
        if r or timeout == 0: return r
        if timeout is None: raise Stuck("nothing left to happen")
        self.loop.now += max(timeout, 0)
        return []


class VLoop(asyncio.SelectorEventLoop):
    """Virtual time; connections are made by the scripted server."""
    def __init__(self, server):
        self.now = 1.0
        s = Sel()
        super().__init__(s)
        s.loop, self.server = self, server
    def time(self): return self.now
    async def create_connection(self, factory, host=None, port=None, **k): return await self.server.connect(self, factory, (host, port))
    async def create_unix_connection(self, factory, path=None, **k): return await self.server.connect(self, factory, (str(path),))
    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, **k): return await self.server.bind(self, factory, remote_addr)


class Wire(asyncio.Transport, asyncio.DatagramTransport):
    def __init__(self, loop, server, proto, datagram=False):
        super().__init__()
        self.loop, self.server, self.proto, self.buf, self.closing, self.ready, self.datagram, self.cut = loop, server, proto, b"", False, 0.0, datagram, False
    def is_closing(self): return self.closing
    def get_extra_info(self, name, default=None): return default
    def set_protocol(self, p): self.proto = p
    def get_protocol(self): return self.proto
    def pause_reading(self): pass
    def resume_reading(self): pass
    def set_write_buffer_limits(self, *a, **k): pass
    def get_write_buffer_size(self): return 0
    def can_write_eof(self): return False
    def lose(self, exc=None):
        if self.closing: return
        self.closing = True
        self.loop.call_soon(self.proto.connection_lost, exc)
    def close(self): self.lose()
    def abort(self): self.lose()
    def sendto(self, data, addr=None):
        if self.closing: return
        self.server.received(self, bytes(data))
    def write(self, data):
        if self.closing: return
        self.buf += bytes(data)
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.server.received(self, line + b"\n")
    def deliver(self, data, then=None):
        if self.closing: return
        if self.datagram: self.proto.datagram_received(data, ("h", 1))
        else: self.proto.data_received(data)
        if then == "eof":
            self.proto.eof_received()
            self.lose()


class Server:
    """Takes one behaviour from the script per request and one from `opens` per connection; "ok" when they run out."""
    def __init__(self, script, opens, answers):
        self.script, self.opens, self.answers = list(script), list(opens), list(answers)
        self.requests, self.failed_opens, self.addresses, self.heartbeats, self.used = [], 0, [], 0, []
    def opening(self):
        o = self.opens.pop(0) if self.opens else "ok"
        self.used.append("open:" + o)
        if o == "ok": return None
        self.failed_opens += 1
        return {"refused": ConnectionRefusedError, "reset": ConnectionResetError, "aborted": ConnectionAbortedError, "timeout": TimeoutError, "os": OSError}[o](o)
    async def connect(self, loop, factory, addr):
        self.addresses.append(addr)
        await asyncio.sleep(0.01)
        e = self.opening()
        if e: raise e
        p = factory()
        w = Wire(loop, self, p)
        p.connection_made(w)
        return w, p
    async def bind(self, loop, factory, addr):
        self.addresses.append(tuple(addr))
        await asyncio.sleep(0)
        e = self.opening()
        if e: raise e
        p = factory()
        w = Wire(loop, self, p, True)
        p.connection_made(w)
        return w, p
    def received(self, wire, line):
        loop = wire.loop
        beh = self.script.pop(0) if self.script else "ok"
        if line == b"\x05\n":
            self.heartbeats += 1
            out = b"\x06\n"
        else:
            req = json.loads(line)
            self.requests.append(req)
            self.used.append(beh)
            i = req["data"]["n"]
            a = self.answers[i] if i < len(self.answers) else [0]
            status, data = a[0], (a[1] if len(a) > 1 else {"n": i})
            out = (json.dumps({"span_key": req["span_key"], "status": status, "data": data}) + "\n").encode()
        delay = {"ok": 0.01, "slow": 0.5 * TIMEOUT, "late": 1.5 * TIMEOUT, "later": 3.2 * TIMEOUT}.get(beh, 0.01)
        # one server answers a connection's requests in their order
        at = max(loop.now + delay, wire.ready)
        wire.ready = at
        if beh == "never": wire.ready = float("inf"); return
        if at == float("inf"): return
        if beh == "close": loop.call_at(at, lambda: wire.deliver(b"", "eof") if not wire.datagram else None); return
        if beh == "reset":
            loop.call_at(at, wire.lose, ConnectionResetError("reset")); return
        if beh == "partial":
            if not wire.datagram: loop.call_at(at, wire.deliver, out[:len(out) // 2], "eof")
            return
        if beh == "split" and not wire.datagram:
            loop.call_at(at, wire.deliver, out[:5]); loop.call_at(at + 0.001, wire.deliver, out[5:]); wire.ready = at + 0.001; return
        loop.call_at(at, wire.deliver, out)


def make(kind, max_retries, heartbeat):
    from ekosis.clients.json import transient_tcp, transient_uds, persisted_tcp, persisted_uds, udp
    t = dict(timeout=TIMEOUT, max_retries=max_retries, retry_delay=0.05)
    if kind == "transient_tcp": return transient_tcp.TransientTCPClient("h", 1, **t), ("h", 1)
    if kind == "transient_uds": return transient_uds.TransientUDSClient("/s", **t), ("/s",)
    if kind == "persisted_tcp": return persisted_tcp.PersistedTCPClient("h", 1, heartbeat_period=heartbeat, **t), ("h", 1)
    if kind == "persisted_uds": return persisted_uds.PersistedUDSClient("/s", heartbeat_period=heartbeat, **t), ("/s",)
    return udp.UDPClient("h", 1, **t), ("h", 1)


def run(scn):
    """scn: {"kind", "max", "calls": [[start, cancel_after or None, own_key?]...], "script", "opens", "heartbeat", "answers"}"""
    env.bootstrap()
    server = Server(scn["script"], scn.get("opens", []), scn.get("answers", []))
    loop = VLoop(server)
    import time as _time
    real = _time.time
    try:
        asyncio.set_event_loop(loop)
        _time.time = lambda: loop.now
        return loop.run_until_complete(go(scn, server, loop))
    except Stuck:
        return "a call never ends"
    except Exception as e:
        return env.escaped(e, scn)
    finally:
        _time.time = real
        try:
            for t in asyncio.all_tasks(loop): t.cancel()
            loop.run_until_complete(asyncio.sleep(0))
            loop.run_until_complete(asyncio.sleep(0))
        except BaseException: pass
        asyncio.set_event_loop(None)
        loop.close()


async def go(scn, server, loop):
    import pydantic
    from ekosis.exceptions import CommunicationsMaxRetriesReached, CommunicationsNonRetryable
    class P(pydantic.BaseModel):
        n: int
        s: str = ""
    client, addr = make(scn["kind"], scn["max"], scn.get("heartbeat", 100000))
    results = {}
    async def one(i, start, key_):
        await asyncio.sleep(start)
        try: results[i] = ("value", await client.send_message(f"r{i}", P(n=i), P, key_))
        except asyncio.CancelledError: results[i] = ("cancelled", None); raise
        except Exception as e: results[i] = ("raised", e)
    tasks = []
    for i, c in enumerate(scn["calls"]):
        t = asyncio.ensure_future(one(i, c[0], key(50 + i) if len(c) > 2 and c[2] else None))
        if c[1] is not None: loop.call_at(loop.now + c[0] + c[1], t.cancel)
        tasks.append(t)
    done, pending = await asyncio.wait(tasks, timeout=500)
    if pending: return "a call never ends"
    for a in server.addresses:
        if a != addr: return f"connected to {a}, configured {addr}"
    sent = {}
    for r in server.requests: sent.setdefault(r["data"]["n"], []).append(r)
    for i, c in enumerate(scn["calls"]):
        rs = sent.get(i, [])
        if len(rs) > scn["max"]: return f"call {i} was sent {len(rs)} times, budget {scn['max']}"
        for r in rs:
            if r["route_key"] != f"r{i}" or r["data"] != {"n": i, "s": ""}: return f"call {i} sent {r}"
            if len(c) > 2 and c[2] and r["span_key"] != key(50 + i).model_dump(mode="json"): return f"call {i} sent span key {r['span_key']}"
            if r["span_key"] != rs[0]["span_key"]: return f"call {i} changed its span key"
        kind, v = results.get(i, ("none", None))
        a = scn.get("answers", [])
        a = a[i] if i < len(a) else [0]
        if kind == "none" and c[1] is not None: continue
        if kind == "none": return f"call {i} has no outcome"
        if kind == "cancelled":
            if c[1] is None: return f"call {i} was cancelled by nobody"
        elif kind == "value":
            if a[0] != 0 or (v.n != i if len(a) < 2 else not fits(a[1]) or v.model_dump() != {"n": a[1]["n"], "s": a[1].get("s", "")}): return f"call {i} got {v!r}, not the response to its request"
        elif type(v) in (CommunicationsMaxRetriesReached, CommunicationsNonRetryable): pass
        elif len(a) > 0 and (a[0] != 0 or len(a) > 1):
            m = answer(v, a)
            if m: return f"call {i}: {m}"
        elif "partial" in server.used and scn["kind"].startswith("transient") and isinstance(v, ValueError): pass
        else: return f"call {i} raised {type(v).__name__}: {v}"
        if kind in ("value",) and not rs: return f"call {i} returned without a request"
    keys = [rs[0]["span_key"]["trace_id"] + rs[0]["span_key"]["span_id"] for rs in sent.values()]
    if len(set(keys)) != len(keys): return "two calls share a span key"
    if len(scn["calls"]) == 1 and scn["calls"][0][1] is None and scn.get("heartbeat", 100000) >= 100000: return sequential(scn, server, results[0])


STATUS = {100: "ProtocolParsingException", 200: "ClientDeniedException", 300: "PydanticValidationException", 400: "RouteKeyUnknownException", 500: "ServerBusyException",
          600: "ProcessingException", 999: "UnhandledException"}


def answer(e, a):
    """The exception for the answered status."""
    import pydantic
    if a[0] == 0:
        return None if isinstance(e, (pydantic.ValidationError, TypeError)) and not fits(a[1]) else f"raised {type(e).__name__}: {e} for the success response {a}"
    want = STATUS.get(a[0], "UnknownStatusCodeException")
    if type(e).__name__ != want: return f"status {a[0]} raised {type(e).__name__}: {e}"
    data = a[1] if len(a) > 1 else None
    if str(data) not in str(e) and str(data) not in " ".join(str(x) for x in e.args) and str(data) not in str(getattr(e, "message", "")): return f"{type(e).__name__}({e}) does not carry {data!r}"


def fits(d):
    return isinstance(d, dict) and isinstance(d.get("n"), int) and not isinstance(d.get("n"), bool) and isinstance(d.get("s", ""), str)


def sequential(scn, server, result):
    """A call on its own: the outcome follows from the script."""
    script, opens, kind = list(scn["script"]), list(scn.get("opens", [])), scn["kind"]
    persisted, connected = kind.startswith("persisted"), False
    want = None
    for att in range(scn["max"]):
        if kind.startswith("transient") or not connected:
            o = opens.pop(0) if opens else "ok"
            if o == "ok": connected = True
            elif o == "timeout" or o in ("reset", "aborted") and kind != "udp": continue
            else: want = ("CommunicationsNonRetryable", att + 1); break
        b = script.pop(0) if script else "ok"
        if b in ("ok", "slow", "split"): want = ("value", att + 1); break
        if b in ("late", "later", "never"): connected = False; continue
        if kind == "udp": connected = False; continue
        if b == "reset": connected = False; continue
        if b in ("close", "partial"):
            if persisted: connected = False; continue
            if b == "close": want = ("CommunicationsNonRetryable", att + 1); break
            return None
    if want is None: want = ("CommunicationsMaxRetriesReached", scn["max"])
    a = scn.get("answers", [])
    got = result[0] if result[0] == "value" else type(result[1]).__name__
    if want[0] == "value" and a and (a[0][0] != 0 or len(a[0]) > 1):
        if got.startswith("Communications"): return f"ended with {got}, the answer was {a[0]}"
        if a[0][0] == 0 and fits(a[0][1]) != (got == "value"): return f"ended with {got} ({result[1]!r}), the answer was {a[0]}"
        if a[0][0] != 0 and got == "value": return f"returned {result[1]!r} for {a[0]}"
    elif got != want[0]: return f"ended with {got} ({result[1]!r}), expected {want[0]}"
    n = len(server.requests) + server.failed_opens
    if n != want[1]: return f"{n} attempts, expected {want[1]}"


KINDS = ["transient_tcp", "transient_uds", "persisted_tcp", "persisted_uds", "udp"]
BEH = ["ok", "slow", "late", "later", "never", "close", "reset", "partial", "split"]
OPENS = ["ok", "refused", "reset", "aborted", "timeout", "os"]


def exhaustive(tier):
    for kind in KINDS:
        for mx in (1, 2, 3):
            for n in range(0, min(mx, 2) + 1 if tier == "quick" else mx + 1):
                for sc in itertools.product(BEH[1:] if n else [], repeat=n):
                    yield {"kind": kind, "max": mx, "calls": [[0, None, n % 2]], "script": list(sc)}
            for op in itertools.product(OPENS, repeat=2):
                yield {"kind": kind, "max": mx, "calls": [[0, None]], "script": [], "opens": list(op)}
                yield {"kind": kind, "max": mx, "calls": [[0, None]], "script": ["late", "reset"], "opens": list(op)}
        for sc in itertools.product(["ok", "late", "later", "never", "close", "reset", "split"], repeat=2):
            for start in (0, 0.3, 1.2, 1.6, 3.3):
                yield {"kind": kind, "max": 1, "calls": [[0, None], [start, None], [start + 0.4, None]], "script": list(sc)}
        for cancel in (0, 0.005, 0.011, 0.02, 0.3, 0.6, 1.1):
            for sc in (["slow"], ["slow", "slow"], ["late"], ["later", "slow"], ["split"], ["late", "late"]):
                for start in (0, 0.02, 0.4, 1.0, 1.15, 2.0):
                    yield {"kind": kind, "max": 2, "calls": [[0, cancel], [start, None], [start, None]], "script": sc}


def scenarios(rnd):
    while True:
        kind = rnd.choice(KINDS)
        n = rnd.randint(1, 5)
        yield {"kind": kind, "max": rnd.randint(1, 4), "script": [rnd.choice(BEH) for _ in range(rnd.randint(0, 10))],
               "opens": [rnd.choice(["ok", "ok"] + OPENS) for _ in range(rnd.choice([0, 0, 3]))],
               "calls": [[round(rnd.choice([0, rnd.random() * 4]), 3), round(rnd.random() * 3, 3) if rnd.random() < 0.3 else None, rnd.randint(0, 1)] for _ in range(n)],
               "heartbeat": rnd.choice([100000, 0.2, 1, 0.7])}


# ---------------------------------------------------------------- C10
DATA = [{"n": 0}, {"n": 0, "s": "x"}, {}, None, "text", "", 5, [1], {"n": "x"}, {"n": None}, {"s": "y"}, {"n": 7, "extra": 1}, "quote\"\u2603 {x}", {"message": "m"}, True, 0]


def exhaustive10(tier):
    for kind in KINDS:
        for st in (0, 100, 200, 300, 400, 500, 600, 999, 1, -1, 50, 998, 700):
            for d in DATA: yield {"kind": kind, "max": 2, "calls": [[0, None, (st // 100) % 2]], "script": [], "answers": [[st, d]]}
    for s in senders(): yield s


def senders():
    for what in ("class", "decorator"):
        for k in (0, 1):
            for st in (0, 500, 300, 17):
                for d in ({"n": 4}, "m", None): yield {"sender": what, "key": k, "answer": [st, d]}


def run10(scn):
    if "sender" not in scn: return run(scn)
    try: return asyncio.run(sending(scn))
    except Exception as e: return env.escaped(e, scn)


async def sending(scn):
    env.bootstrap()
    import pydantic
    from ekosis.sending.sender import sender
    from ekosis.sending.sender_base import SenderBase
    from ekosis.clients.client_base import ClientBase
    class P(pydantic.BaseModel):
        n: int
        s: str = ""
    sent = []
    class C_(ClientBase):
        async def _send_message_retry_loop(self, request):
            sent.append(request)
            r = json.loads(request)
            return json.dumps({"span_key": r["span_key"], "status": scn["answer"][0], "data": scn["answer"][1]})
    k = key(77) if scn["key"] else None
    exc = r = None
    try:
        if scn["sender"] == "class":
            class S(SenderBase):
                async def send(self, n, span_key=None): return await self.send_data(P(n=n), span_key)
            r = await S(C_(), "the.route", P, P).send(3, k)
        else:
            @sender(C_(), "the.route", P)
            async def f(n, **kw): return P(n=n)
            r = await (f(3, span_key=k) if k else f(3))
    except Exception as e: exc = e
    if len(sent) != 1 or not sent[0].endswith("\n") or "\n" in sent[0][:-1]: return f"sent {sent}"
    q = json.loads(sent[0])
    if q["route_key"] != "the.route" or q["data"] != {"n": 3, "s": ""}: return f"sent {q}"
    if k and q["span_key"] != k.model_dump(mode="json"): return f"sent span key {q['span_key']}"
    st, d = scn["answer"]
    if st == 0 and fits(d): return None if exc is None and type(r) is P and r.n == d["n"] else f"gave {r!r} {exc!r} for {scn['answer']}"
    if exc is None: return f"gave {r!r} for {scn['answer']}"
    return answer(exc, scn["answer"])


def scenarios10(rnd):
    while True:
        yield {"kind": rnd.choice(KINDS), "max": rnd.randint(1, 3), "script": [rnd.choice(["ok", "ok", "slow", "split", "late"]) for _ in range(3)],
               "calls": [[round(rnd.random(), 3), None, rnd.randint(0, 1)] for _ in range(rnd.randint(1, 3))],
               "answers": [[rnd.choice([0, 0, 100, 200, 300, 400, 500, 600, 999, rnd.randint(-5, 1100)]), rnd.choice(DATA)] for _ in range(3)]}
