"""Run-time contracts of the servers: the real stream and datagram servers with the real router and
endpoints, in memory, compared with what each request should be answered with."""
import asyncio, itertools, json, random
from dv import env
from .queue_rt import key
from .buffered_rt import EXC, Boom

_env = {}


def setup():
    """Endpoints of this process; each acts as its payload says."""
    if _env: return _env
    import pydantic
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.request_router import RequestRouter
    from ekosis.requests.buffered_handler import BufferedHandler
    from ekosis.requests.request_context import _get_current_span_key
    from ekosis.exceptions.application_level import ApplicationProcessingException
    class P(pydantic.BaseModel):
        n: int
        act: str = "ok"
        arg: int = 0
        gate: int = 0
        s: str = ""
    class Q(pydantic.BaseModel):
        m: int = 0
    _env["bad"] = []
    _env["calls"] = []
    async def act(name, dto, span_key):
        _env["calls"].append((name, str(span_key), dto.n))
        for _ in range(dto.gate): await asyncio.sleep(0)
        c = _get_current_span_key()
        if c is None or str(c) != str(span_key): _env["bad"].append(f"current span key is {c} while handling {span_key}")
        if dto.act == "raise": raise EXC[dto.arg % len(EXC)]()
        if dto.act == "appl": raise ApplicationProcessingException(f"m{dto.arg}")
        if dto.act == "none": return None
        if dto.act == "object": return object()
        return dto
    for nm in ("alpha", "beta"):
        async def fn(dto, span_key, _n=nm): return await act(_n, dto, span_key)
        async def call(dto, span_key, f=fn): return await f(dto, span_key)
        make(endpoint, nm, P, act)
    async def plain(): return Q(m=7)
    endpoint("plain")(plain)
    async def never(dto): return True
    RequestRouter().register_handler(BufferedHandler("busy", never, Q, 10, 1, {"dto"}))
    _env["P"] = P
    return _env


def make(endpoint, nm, P, act):
    async def fn(dto, span_key): return await act(nm, dto, span_key)
    endpoint(nm, P)(fn)


NOTJSON = ["", "  ", "{", "nonsense", "{\"a\": }", "{'a': 1}", "[1, 2", "\u2603", "{\"route_key\": \"alpha\"", "tru", "\x00", "{\x05}", "x\x05", " \x05", "\r", "a\x06\x05b"]
NONMAP = ["[]", "5", "null", "\"x\"", "true", "1.5", "[{\"a\": 1}]"]
PAYBAD = [{}, {"n": "x"}, {"n": None}, {"n": 1.5}, {"n": 1, "gate": []}]
PAYODD = [5, "s", None, [1], True]


def request(req, i):
    """[kind, arg, gate] -> (text, expectation)"""
    kind, arg, gate = (list(req) + [0, 0])[:3]
    k = key(1000 + i)
    sk = k.model_dump(mode="json")
    def text(route, data, span=sk, **kw): return json.dumps({"route_key": route, "span_key": span, "data": data, **kw})
    name = "alpha" if arg % 2 == 0 else "beta"
    base = {"n": i, "arg": arg, "gate": gate}
    if kind == "ok":
        d = {**base, "act": "ok", "s": ["", "x", "quote\"'\u2603", "\n\t", " "][arg % 5]}
        t = text(name, d)
        if arg % 7 in (3, 5, 6):        # the same document, written in another way
            sep, asc = {3: (("\r, ", "\t:\r "), True), 5: ((",", ":"), False), 6: ((" ,\r", " :"), False)}[arg % 7]
            t = json.dumps(json.loads(t), separators=sep, ensure_ascii=asc)
        return (["", "  ", "\t"][arg % 3] + t + ["", " ", ""][arg % 3]), dict(status=[0], span=sk, data=d, route=name, n=i)
    if kind == "none": return text(name, {**base, "act": "none"}), dict(status=[0], span=sk, data=None, route=name, n=i)
    if kind == "plain": return text("plain", {}, extra=1), dict(status=[0], span=sk, data={"m": 7}, route="plain", n=None)
    if kind == "raise": return text(name, {**base, "act": "raise"}), dict(status=[999], span=sk, data=str(EXC[arg % len(EXC)]()), n=i, called=name)
    if kind == "appl": return text(name, {**base, "act": "appl"}), dict(status=[600], span=sk, part=f"m{arg}", n=i, called=name)
    if kind == "object": return text(name, {**base, "act": "object"}), dict(status=[999], span=sk, n=i, called=name, route=name)
    if kind == "surrogate": return text(name, {**base, "act": "ok", "s": "\ud800"}), dict(status=[999, 300], span=sk, any=True)
    if kind == "noroute": return text(["nowhere", "", "Alpha", "alpha ", "alpha.x"][arg % 5], base), dict(status=[400], span=sk, n=None)
    if kind == "paybad": return text(name, PAYBAD[arg % 5]), dict(status=[300], span=sk, n=None)
    if kind == "payodd": return text(name, PAYODD[arg % 5]), dict(status=[300, 999], span=sk, n=None)
    if kind == "busy": return text("busy", {}), dict(status=[500], span=sk, n=None)
    if kind == "notjson": return NOTJSON[arg % len(NOTJSON)], dict(status=[100], span=None, n=None)
    if kind == "nonmap": return NONMAP[arg % len(NONMAP)], dict(status=[100, 300, 999], span=None, n=None)
    if kind == "proto":
        docs = [{"span_key": sk, "data": {}}, {"route_key": "alpha", "data": {}}, {"route_key": 5, "span_key": sk, "data": {}}, {"route_key": "alpha", "span_key": "x", "data": {}},
                {"route_key": "alpha", "span_key": {"trace_id": "zz", "span_id": sk["span_id"]}, "data": {}}, {"route_key": "alpha", "span_key": {"trace_id": sk["trace_id"]}, "data": {}}, {"route_key": "alpha", "span_key": None, "data": {}}, {}]
        return json.dumps(docs[arg % len(docs)]), dict(status=[300], span=None, n=None)
    raise ValueError(kind)


KINDS = ["ok", "ok", "none", "plain", "raise", "raise", "appl", "object", "surrogate", "noroute", "paybad", "payodd", "busy", "notjson", "nonmap", "proto"]


def judge(got, want, what):
    if got.get("status") not in want["status"]: return f"{what}: status {got.get('status')} ({str(got.get('data'))[:120]}), expected {want['status']}"
    if got.get("span_key") != want["span"]: return f"{what}: answered with span key {got.get('span_key')}, expected {want['span']}"
    if "data" in want and got.get("data") != want["data"]: return f"{what}: payload {got.get('data')!r}, expected {want['data']!r}"
    if "part" in want and want["part"] not in str(got.get("data")): return f"{what}: message {got.get('data')!r} does not carry {want['part']!r}"
    if want["status"] != [0] and not isinstance(got.get("data"), str): return f"{what}: failure without a message"


class Writer:
    def __init__(self, fail_at=None): self.out, self.closed, self.fail_at, self.n = b"", False, fail_at, 0
    def write(self, b):
        if self.closed: raise RuntimeError("write on a closed connection")
        self.out += b
    async def drain(self):
        self.n += 1
        await asyncio.sleep(0)
        if self.fail_at is not None and self.n > self.fail_at: raise ConnectionResetError("reset")
    def close(self): self.closed = True
    def is_closing(self): return self.closed
    async def wait_closed(self): pass
    def get_extra_info(self, *a, **k): return None


async def counts():
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
    d = (await StatisticsKeeper().get_current_statistics()).get("endpoint_data", {})
    return {r: d[r]["call_count"] for r in ("alpha", "beta", "plain", "busy")}


async def stream_server():
    from ekosis.servers.json.tcp import TCPServer
    conf = type("Conf", (), {"host": "127.0.0.1", "port": 0})()
    cap = {}
    class S:
        sockets = [type("K", (), {"getsockname": lambda s: "x"})()]
        def close(self): pass
    async def start(cb, *a, **k): cap["cb"] = cb; return S()
    saved = asyncio.start_server
    asyncio.start_server = start
    try:
        srv = TCPServer(conf)
        await srv.__aenter__()
    finally:
        asyncio.start_server = saved
    return srv, cap["cb"]


def run(scn):
    try: return asyncio.run(asyncio.wait_for(_run(scn), 30))
    except Exception as e: return env.escaped(e, scn)


async def _run(scn):
    E = setup()
    E["bad"].clear(); E["calls"].clear()
    before = await counts()
    expect_calls, expect_counts = [], {r: 0 for r in before}
    ids = itertools.count()
    def note(w, req):
        if w.get("called") or (w.get("route") not in (None, "plain")): expect_calls.append((w.get("called") or w["route"], str(key(1000 + w["n"])), w["n"]))
        if w["status"] == [0] or req[0] == "object": expect_counts[w["route"]] += 1
    if scn["mode"] == "direct":
        from ekosis.servers.server_base import ServerBase
        from ekosis.requests.request_context import _set_current_span_key, _get_current_span_key
        outer = key(7) if scn.get("outer") else None
        _set_current_span_key(outer)
        srv = ServerBase()
        for i, req in enumerate(scn["reqs"]):
            t, w = request(req, next(ids))
            r = await srv._route_request(t)
            if req[0] in ("object", "surrogate"):
                if req[0] == "object": note(w, req)
                else: E["skip"] = True
                continue
            note(w, req)
            b = judge(json.loads(r.model_dump_json()), w, f"request {i} {req}")
            if b: return f"{b}; {scn}"
            c = _get_current_span_key()
            if (c is None) != (outer is None) or c is not None and str(c) != str(outer): return f"request {i} {req}: the current span key afterwards is {c}, was {outer}; {scn}"
    elif scn["mode"] == "stream":
        srv, cb = await stream_server()
        jobs, rnd = [], random.Random(str(scn.get("split", 0)))
        for ci, conn in enumerate(scn["conns"]):
            data, wants = b"", []
            for req in conn["reqs"]:
                if req[0] == "enq": data += b"\x05" + b"x" * req[1] + b"\n"; wants.append(("enq", None, req)); continue
                t, w = request(req, next(ids))
                if "\n" in t: t = t.replace("\n", " ")
                if t[:1] == "\x05": continue
                data += t.encode() + b"\n"; wants.append(("req", w, req))
            tail = conn.get("tail")
            if tail:
                if tail[0] == "enq": data += b"\x05"
                else:
                    t, w = request(tail, next(ids))
                    data += t.encode()[: max(1, len(t) - tail[1])]
            rd, wr = asyncio.StreamReader(), Writer(conn.get("fail_at"))
            task = asyncio.ensure_future(cb(rd, wr))
            jobs.append((ci, conn, rd, wr, task, data, wants))
        async def feed(rd, data):
            while data:
                n = rnd.choice([1, 2, 7, 50, 400, 5000]) if scn.get("split") else len(data)
                rd.feed_data(data[:n]); data = data[n:]
                for _ in range(rnd.randint(0, 3)): await asyncio.sleep(0)
            rd.feed_eof()
        await asyncio.gather(*[feed(j[2], j[5]) for j in jobs])
        for ci, conn, rd, wr, task, data, wants in jobs:
            what = f"connection {ci}"
            try: await asyncio.wait_for(task, 10)
            except Exception as e: return f"{what}: handler ended with {type(e).__name__}: {e}; {scn}"
            if not wr.closed: return f"{what}: not closed at its end; {scn}"
            out = wr.out
            if out and not out.endswith(b"\n"): return f"{what}: output does not end with a line feed: {out[-60:]!r}; {scn}"
            lines = out.split(b"\n")[:-1]
            fail = conn.get("fail_at")
            if fail is not None and fail < len(wants): wants = wants[:fail + 1]
            if len(lines) != len(wants): return f"{what}: {len(lines)} answers to {len(wants)} lines: {lines}; {scn}"
            for i, ((kind, w, req), l) in enumerate(zip(wants, lines)):
                if kind == "enq":
                    if l != b"\x06": return f"{what}: enquiry {i} answered with {l!r}; {scn}"
                    continue
                if l == b"\x06": return f"{what}: request {i} {req} answered as an enquiry; {scn}"
                b = judge(json.loads(l), w, f"{what} request {i} {req}")
                if b: return f"{b}; {scn}"
                if not w.get("any"): note(w, req)
    elif scn["mode"] == "udp":
        from ekosis.servers.json.udp import UDPServer
        conf = type("Conf", (), {"host": "127.0.0.1", "port": 0})()
        srv = UDPServer(conf)
        cap, sent = {}, []
        class T:
            def sendto(self, data, addr=None): sent.append((addr, data))
            def close(self): pass
        loop = asyncio.get_running_loop()
        async def cde(factory, **k): cap["p"] = factory(); cap["p"].connection_made(T()); return T(), cap["p"]
        loop.create_datagram_endpoint = cde
        await srv.__aenter__()
        t = asyncio.ensure_future(srv.serve())
        while "p" not in cap: await asyncio.sleep(0)
        wants = {}
        for i, req in enumerate(scn["reqs"]):
            tx, w = request(req, next(ids))
            addr = ("host", i)
            if tx[:1] in ("\x05", "\x06"): continue
            cut = scn.get("cut") == i
            cap["p"].datagram_received(tx.encode() + (b"" if cut else b"\n"), addr)
            if not cut: wants[addr] = (w, req)
            for _ in range(req[2] if len(req) > 2 else 0): await asyncio.sleep(0)
        for _ in range(400):
            if len(sent) >= len(wants): break
            await asyncio.sleep(0)
        for _ in range(3): await asyncio.sleep(0)
        srv.stop(); t.cancel()
        try: await t
        except BaseException: pass
        if sorted(a[1] for a, _ in sent) != sorted(a[1] for a in wants): return f"answers went to {[a for a, _ in sent]}, requests came from {list(wants)}; {scn}"
        for addr, data in sent:
            w, req = wants[addr]
            b = judge(json.loads(data), w, f"datagram {addr[1]} {req}")
            if b: return f"{b}; {scn}"
            if not w.get("any"): note(w, req)
    if E["bad"]: return f"{E['bad'][0]}; {scn}"
    reqs = scn.get("reqs") or [r for c in scn["conns"] for r in c["reqs"] + ([c["tail"]] if c.get("tail") else [])]
    if not any(r[0] == "surrogate" for r in reqs):
        if sorted(E["calls"]) != sorted(expect_calls): return f"endpoint calls {E['calls']}, expected {expect_calls}; {scn}"
        after = await counts()
        got = {r: after[r] - before[r] for r in before}
        if got != expect_counts: return f"call counts rose by {got}, expected {expect_counts}; {scn}"
    return None


def rand_req(rnd): return [rnd.choice(KINDS), rnd.randrange(60), rnd.choice([0, 0, 1, 2, 5])]


def scenarios_answers(rnd):
    while True:
        m = rnd.choice(["direct", "stream", "stream", "udp"])
        if m == "direct": yield {"mode": m, "outer": rnd.random() < .5, "reqs": [rand_req(rnd) for _ in range(rnd.randint(1, 8))]}
        elif m == "udp": yield {"mode": m, "reqs": [rand_req(rnd) for _ in range(rnd.randint(1, 8))]}
        else: yield {"mode": m, "split": 0, "conns": [{"reqs": [rand_req(rnd) for _ in range(rnd.randint(1, 5))]} for _ in range(rnd.randint(1, 3))]}


def exhaustive_answers(tier):
    for k in dict.fromkeys(KINDS):
        for arg in range(16):
            yield {"mode": "direct", "outer": bool(arg % 2), "reqs": [[k, arg, 1], ["ok", arg, 0]]}
            yield {"mode": "stream", "split": 0, "conns": [{"reqs": [[k, arg, 2], ["ok", 1, 1]]}, {"reqs": [["ok", arg, 1], [k, arg, 0]]}]}
    for a, b in itertools.product(dict.fromkeys(KINDS), repeat=2):
        yield {"mode": "udp", "reqs": [[a, 0, 1], [b, 1, 0], ["ok", 2, 0]]}


def scenarios_pairing(rnd):
    while True:
        if rnd.random() < .25:
            n = rnd.randint(1, 8)
            yield {"mode": "udp", "reqs": [rand_req(rnd) for _ in range(n)], "cut": rnd.choice([None, rnd.randrange(n)])}
            continue
        conns = []
        for _ in range(rnd.randint(1, 4)):
            reqs = [["enq", rnd.choice([0, 0, 3])] if rnd.random() < .2 else rand_req(rnd) for _ in range(rnd.randint(0, 7))]
            c = {"reqs": reqs}
            if rnd.random() < .3: c["tail"] = [rnd.choice(["ok", "ok", "enq", "raise"]), rnd.choice([0, 1, 5, 30]), 0]
            if rnd.random() < .2: c["fail_at"] = rnd.randint(0, 4)
            conns.append(c)
        yield {"mode": "stream", "split": rnd.randrange(1, 10 ** 6), "conns": conns}


def exhaustive_pairing(tier):
    al = [["ok", 0, 1], ["enq", 0], ["raise", 1, 0], ["notjson", 3, 0], ["enq", 2]]
    for i in range(len(NOTJSON)): yield {"mode": "stream", "split": 0, "conns": [{"reqs": [["notjson", i, 0], ["ok", 1, 0], ["enq", 0]]}]}
    for n in (0, 1, 2, 3):
        for seq in itertools.product(al, repeat=n):
            for tail in (None, ["ok", 0, 0], ["ok", 9, 0], ["enq", 0, 0]):
                c = {"reqs": [list(x) for x in seq]}
                if tail: c["tail"] = tail
                yield {"mode": "stream", "split": n + 1, "conns": [c]}
                if n == 2: yield {"mode": "stream", "split": 9, "conns": [c, {"reqs": [["ok", 1, 3], ["ok", 3, 0]], "fail_at": 0}, {"reqs": [["ok", 2, 2]]}]}
