"""Run-time contracts of buffered handlers and senders: the real classes with real queue files, driven by
scripted user functions, middleware and clients, compared with the abstract outcome rules."""
import asyncio, itertools, json, os, shutil
from dv import env
from .queue_rt import key

PAYLOADS = [{"n": 0}, {"n": 1, "s": "x"}, {"n": 2, "s": "quote\"' \n\u2603"}, {"n": -3, "l": [1, None, {"a": []}]}, {"n": 4, "s": ""}]
_n = itertools.count()
_cls = {}


def D():
    if "D" not in _cls:
        import pydantic
        from typing import Any
        class D(pydantic.BaseModel):
            n: int = 0
            s: str = ""
            l: Any = None
        class E(pydantic.BaseModel): pass
        _cls["D"], _cls["E"] = D, E
    return _cls["D"]


def E(): D(); return _cls["E"]


class Boom(Exception): pass
class Odd(Exception):
    def __str__(self): return "odd one"


EXC = [lambda: Boom("boom"), lambda: ValueError("v"), lambda: KeyError("k"), lambda: Odd(), lambda: asyncio.TimeoutError(), lambda: RuntimeError(""), lambda: OSError(5, "io"), lambda: StopAsyncIteration()]


def send_exc(i):
    from ekosis import exceptions as x
    from ekosis.exceptions.communication import CommunicationsRetryable
    return [x.ServerBusyException("busy"), x.CommunicationsMaxRetriesReached(), x.ProcessingException("p"), x.UnhandledException("u"), x.RouteKeyUnknownException("r"),
            x.CommunicationsNonRetryable(), CommunicationsRetryable(), x.PydanticValidationException("x"), Boom("boom"), ValueError("v"), x.CommunicationsEmptyResponse(), OSError(9, "e")][i % 12]


RETRYABLE = (0, 1)


class Mw:
    """Middleware whose hooks follow the running item's script."""
    def __init__(self, w): self.w = w
    async def before_push(self, span_key, dto): return self.w.meta.get(str(span_key))
    async def before_process(self, span_key, dto, metadata, retries):
        self.w.seen.append(("before", str(span_key), dict(metadata), retries))
        await self.w.hook("b", span_key)
    async def after_process(self, span_key, dto, metadata, success):
        self.w.seen.append(("after", str(span_key), dict(metadata), success))
        await self.w.hook("a", span_key)


async def idle(limit=4000):
    me = asyncio.current_task()
    for _ in range(limit):
        if not [t for t in asyncio.all_tasks() if t is not me and not t.done()]: return
        await asyncio.sleep(0)
    raise TimeoutError("processing does not stop")


class World:
    def __init__(self, scn):
        self.scn, self.meta, self.seen, self.calls, self.attempts, self.bad = scn, {}, [], [], {}, None
        self.plan = {str(key(i)): it["plan"] for i, it in enumerate(scn["items"])}
        self.cur = None
    def step(self, k):
        p = self.plan.get(str(k), [["ok"]])
        i = self.attempts.get(str(k), 0)
        return p[min(i, len(p) - 1)]
    async def interrupt(self, what):
        if what == "cancel":
            asyncio.current_task().cancel()
            await asyncio.sleep(0)
        elif what == "pause": self.pause()
        elif what == "shutdown": self.h.shut_down(); self.down = True
        await asyncio.sleep(0)
    async def hook(self, where, k):
        if where == "b": self.cur = self.step(k)      # one attempt: its hooks and its processing follow one step
        s = self.cur
        if len(s) > 2 and s[2] == where:          # [outcome, arg, where]
            if s[0] in ("cancel",): self.attempts[str(k)] = self.attempts.get(str(k), 0) + 1; await self.interrupt("cancel")
            if s[0] == "raise": self.attempts[str(k)] = self.attempts.get(str(k), 0) + 1; raise EXC[s[1] % len(EXC)]()
    async def process(self, k, dto):
        from ekosis.requests.request_context import _get_current_span_key
        s = self.step(k)
        self.calls.append((str(k), dto.model_dump() if hasattr(dto, "model_dump") else dto))
        if self.kind == "handler":
            c = _get_current_span_key()
            if c is None or str(c) != str(k): self.bad = f"current span key while processing {k} is {c}"
        if len(s) > 3 and s[3]: await self.interrupt(s[3])      # pause / shutdown meanwhile
        else: await asyncio.sleep(0)
        c = _get_current_span_key() if self.kind == "handler" else k
        if str(c) != str(k): self.bad = f"current span key while processing {k} became {c}"
        if len(s) > 2 and s[2] in ("b", "a"): return True
        self.attempts[str(k)] = self.attempts.get(str(k), 0) + 1
        if s[0] == "cancel": await self.interrupt("cancel")
        if s[0] == "raise": raise (EXC[s[1] % len(EXC)]() if self.kind == "handler" else send_exc(s[1]))
        if s[0] == "no": return [False, None, 0, ""][s[1] % 4]
        return [True, 1, "yes", {"x": 1}][(s[1] if len(s) > 1 else 0) % 4]


def expect(w, model, err, m, kind):
    """Outcome rules applied to the head of the pending list; returns whether processing goes on."""
    k, d, r, meta = model.pop(0)
    a = w._a.get(k, 0)
    p = w.plan.get(k, [["ok"]])
    s = p[min(a, len(p) - 1)]
    w._a[k] = a + 1
    where = s[2] if len(s) > 2 and kind == "handler" else "p"
    if len(s) > 2 and s[2] in ("a", "b") and kind == "sender": s = ["ok"]
    called = where != "b"
    o = s[0]
    go = True
    if o == "cancel":
        model.append((k, d, r, meta)); go = False
    elif o == "raise" and not (kind == "sender" and s[1] % 12 in RETRYABLE): err.append((k, d, None, meta))
    elif o in ("no", "raise") and not (kind == "sender" and o == "no"):
        if r + 1 >= m: err.append((k, d, None, meta))
        else: model.append((k, d, r + 1, meta))
    if called and len(s) > 3 and s[3] in ("pause", "shutdown"): go = False
    return called, (k, d), go


def run_outcomes(scn, kind):
    """scn: {page_size, max_retries, items: [{plan, payload, meta, retries}], steps}"""
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    d = env.scratch_dir("b")
    w = World(scn)
    w.kind, w.down, w._a = kind, False, {}
    mgr = BufferedMiddlewareManager()
    saved = list(mgr.middlewares)
    mgr.middlewares[:] = [Mw(w)] if kind == "handler" else []
    try:
        return asyncio.run(asyncio.wait_for(_outcomes(scn, kind, w, d), 60))
    except Exception as e:
        return env.escaped(e, scn)
    finally:
        mgr.middlewares[:] = saved
        shutil.rmtree(d, ignore_errors=True)


def make(kind, w, route, scn):
    if kind == "handler":
        from ekosis.requests.buffered_handler import BufferedHandler
        async def fn(span_key, dto): return await w.process(span_key, dto)
        return BufferedHandler(route, fn, D(), scn["page_size"], scn["max_retries"], {"span_key", "dto"})
    from ekosis.sending.buffered_sender_class import BufferedSenderClass
    class Cl:
        async def send_message(self, route_key, data, response_dto_type=None, span_key=None):
            if route_key != route: w.bad = f"sent to {route_key}"
            if not isinstance(data, D()): w.bad = f"sent a {type(data).__name__}"
            await w.process(span_key, data)
            return E()()
    return BufferedSenderClass(Cl(), route, D(), E(), 0, scn["page_size"], scn["max_retries"])


def dispose(h):
    for q in (h.queue.pending_q, h.queue.error_q):
        try: q.session.close(); q.database_engine.dispose()
        except Exception: pass


async def _outcomes(scn, kind, w, d):
    route = f"r{next(_n)}"
    h = w.h = make(kind, w, route, scn)
    w.pause = (lambda: w.h.pause_processing()) if kind == "handler" else (lambda: w.h.pause_send_process())
    unpause = (lambda: w.h.unpause_processing()) if kind == "handler" else (lambda: w.h.unpause_send_process())
    await h.setup(d, "app", "0")
    await idle()
    w.pause()
    model, err, log = [], [], []
    for i, it in enumerate(scn["items"]):
        k, p = key(i), D()(**PAYLOADS[it.get("payload", 0) % len(PAYLOADS)])
        meta = {"m": i} if it.get("meta") and kind == "handler" else {}
        w.meta[str(k)] = meta
        if it.get("retries"): await h.queue.push_pending(k, p, it["retries"], meta)
        elif kind == "handler": await h.run(span_key=k, dto=p)
        else: await h.push_message(p, k)
        model.append((str(k), p.model_dump(), it.get("retries", 0), meta))
        await idle()
    for rnd in range(scn.get("rounds", 3)):
        # what should happen now
        go = True
        n0 = len(log)
        w_down = False
        while go and model:
            a = w._a.get(model[0][0], 0)
            called, c, go = expect(w, model, err, scn["max_retries"], kind)
            if called: log.append(c)
        unpause()
        try: await idle()
        except TimeoutError as e: return f"round {rnd}: {e}; {scn}"
        if w.bad: return f"round {rnd}: {w.bad}; {scn}"
        if w.calls != log: return f"round {rnd}: processed {w.calls}, expected {log}; {scn}"
        if kind == "handler":
            for s in w.seen:
                if s[2] != w.meta[s[1]]: return f"round {rnd}: middleware saw metadata {s[2]} for {s[1]}, expected {w.meta[s[1]]}"
        if w.down:
            if not h.on_shutdown_future.done(): return f"round {rnd}: shutdown requested while processing is not completed after it; {scn}"
            dispose(h)
            h = w.h = make(kind, w, route, scn)
            w.down = False
            # look at the stored content before processing goes on
            from ekosis.queues.pending_queue import PendingQueue
            await reopen_paused(h, d)
            await idle()
        if await h.pending_queue_size() != len(model): return f"round {rnd}: {await h.pending_queue_size()} pending, expected {model}; {scn}"
        if await h.error_queue_size() != len(err): return f"round {rnd}: {await h.error_queue_size()} in error, expected {err}; {scn}"
    got = []
    while (e := await h.queue.pop()) is not None: got.append((str(e.span_key), e.data, e.retries, e.metadata))
    if got != model: return f"pending at the end {got}, expected {model}; {scn}"
    gerr = []
    while (e := await h.queue.error_q.pop()) is not None: gerr.append((str(e.span_key), e.data, None, e.metadata))
    if gerr != err: return f"error queue at the end {gerr}, expected {err}; {scn}"
    dispose(h)
    return None


async def reopen_paused(h, d):
    """setup() starts processing at once: the task it creates first runs at the next suspension, pause before it."""
    await h.setup(d, "app", "0")
    (h.pause_processing if hasattr(h, "pause_processing") else h.pause_send_process)()


def outcome_scenarios(rnd, kind):
    while True:
        m = rnd.choice([0, 1, 2, 3, 5])
        items = []
        for _ in range(rnd.randint(1, 6)):
            plan = []
            for _ in range(rnd.randint(1, 4)): plan.append(rand_step(rnd, kind))
            if plan[-1][0] == "cancel": plan.append(["ok"])
            if plan[-1][0] in ("no",) or plan[-1][0] == "raise": pass
            items.append({"plan": plan, "payload": rnd.randrange(5), "meta": rnd.random() < 0.6, "retries": rnd.choice([0, 0, 0, 1, 4])})
        yield {"page_size": rnd.choice([1, 2, 3, 10]), "max_retries": m, "items": items, "rounds": rnd.randint(1, 5)}


def rand_step(rnd, kind):
    o = rnd.choice(["ok", "ok", "no", "no", "raise", "raise", "cancel"]) if kind == "handler" else rnd.choice(["ok", "raise", "raise", "raise", "cancel"])
    where = rnd.choice(["p", "p", "p", "b", "a"]) if kind == "handler" and o in ("raise", "cancel") else "p"
    inter = rnd.choice([None, None, None, "pause", "shutdown"]) if where != "b" else None
    return [o, rnd.randrange(12), where, inter]


def outcome_exhaustive(kind, tier):
    steps = [["ok", 0], ["no", 0], ["cancel", 0, "p", None], ["ok", 0, "p", "shutdown"], ["cancel", 0, "p", "shutdown"], ["ok", 0, "p", "pause"]]
    if kind == "handler":
        steps += [["raise", 0, w, None] for w in "pba"] + [["cancel", 0, w, None] for w in "ba"] + [["no", 1, "p", "shutdown"], ["raise", 1, "p", "shutdown"], ["no", 1]]
    else:
        steps = [s for s in steps if s[0] != "no"] + [["raise", i, "p", None] for i in range(12)] + [["raise", 0, "p", "shutdown"], ["raise", 2, "p", "shutdown"]]
    for m in (0, 1, 2, 3):
        for s in steps:
            for r0 in (0, 1, 2):
                yield {"page_size": 2, "max_retries": m, "rounds": 2, "items": [{"plan": [s], "payload": m, "meta": True, "retries": r0}, {"plan": [["ok"]], "payload": 1, "meta": False}]}
    for a, b in itertools.product(steps, steps):
        yield {"page_size": 1, "max_retries": 2, "rounds": 3, "items": [{"plan": [a, b], "payload": 2, "meta": True}, {"plan": [b], "payload": 3, "meta": True}]}


# ---------------------------------------------------------------- receiving (C05)
def run_receiving(scn):
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    d = env.scratch_dir("r")
    mgr = BufferedMiddlewareManager()
    saved = list(mgr.middlewares)
    try:
        return asyncio.run(asyncio.wait_for(_receiving(scn, d, mgr), 60))
    except Exception as e:
        return env.escaped(e, scn)
    finally:
        mgr.middlewares[:] = saved
        shutil.rmtree(d, ignore_errors=True)


async def _receiving(scn, d, mgr):
    from ekosis.servers.server_base import ServerBase
    from ekosis.requests.request_router import RequestRouter
    from ekosis.requests.buffered_handler import BufferedHandler
    from ekosis.requests.status import Status
    w = type("W", (), {})()
    w.script, w.done, w.meta, w.closed = None, [], {}, False
    class M:
        async def before_push(self, span_key, dto):
            s = w.script
            if s == "raise": raise Boom("mw")
            if s:
                await asyncio.sleep(0)
                if s == "pause": w.h.pause_receiving()
                if s == "shutdown": w.h.shut_down(); w.closed = True
                await asyncio.sleep(0)
            return w.meta.get(str(span_key))
        async def before_process(self, *a): pass
        async def after_process(self, *a): pass
    mgr.middlewares[:] = [M()]
    async def fn(span_key, dto):
        w.done.append((str(span_key), dto.model_dump()))
        return True
    srv = ServerBase()
    async def open_(first=False):
        w.route = f"r{next(_n)}"
        w.h = BufferedHandler(w.route, fn, D(), scn["page_size"], 3, {"span_key", "dto"})
        w.h._route_key = w.route
        RequestRouter().register_handler(w.h)
        real = w.h.get_route_key
        # one file name for all incarnations of the endpoint
        w.h._route_key = "same"
        await w.h.setup(d, "app", "0")
        w.h._route_key = w.route
        w.h.pause_processing()
        await idle()
        w.closed = False
    await open_()
    model, done, paused = [], [], False
    for i, op in enumerate(scn["ops"]):
        what = f"step {i} {op} of {scn}"
        o = op[0]
        if o == "req":
            k, p = key(op[1]), PAYLOADS[op[2] % len(PAYLOADS)]
            w.script = op[3] if len(op) > 3 else None
            meta = {"m": op[1]} if op[1] % 2 else {}
            w.meta[str(k)] = meta
            r = await srv._route_request(json.dumps({"route_key": w.route, "span_key": k.model_dump(mode="json"), "data": p}) + "\n")
            stored = await w.h.queue.inspect_pending_q_span_key(k) if not w.closed else None
            dup = str(k) in [m[0] for m in model]
            full = D()(**p).model_dump()
            if r.span_key != k: return f"{what}: answer carries span key {r.span_key}"
            if r.status == Status.SUCCESS.value:
                if paused or w.script == "pause": return f"{what}: accepted while receiving is paused"
                if w.closed: return f"{what}: acknowledged although its queue was closed"
                if w.script == "raise": return f"{what}: accepted although it was not stored"
                if not dup: model.append((str(k), full, 0, meta))
                if stored != [m[1] for m in model if m[0] == str(k)][0]: return f"{what}: acknowledged but stored payload is {stored!r}"
            else:
                if r.status != Status.APPLICATION_BUSY.value and w.script != "raise": return f"{what}: status {r.status} {r.data}"
                if not (paused or w.script): return f"{what}: refused with {r.status} {r.data} though not paused"
                if r.status == Status.APPLICATION_BUSY.value and w.script == "raise" and not paused: return f"{what}: busy though not paused"
                if stored is not None and not dup: return f"{what}: refused but stored"
            if w.script == "pause": paused = True
            if w.closed: await open_(); paused = False
        elif o == "pause": w.h.pause_receiving(); paused = True
        elif o == "unpause": w.h.unpause_receiving(); paused = False
        elif o == "process":
            done += [(m[0], m[1]) for m in model]; model.clear()
            w.h.unpause_processing(); await idle(); w.h.pause_processing()
            if w.done != done: return f"{what}: processed {w.done}, expected {done}"
        elif o == "reopen":
            w.h.shut_down(); await idle(); dispose(w.h)
            await open_(); paused = False
        if await w.h.pending_queue_size() != len(model): return f"{what}: {await w.h.pending_queue_size()} pending, expected {len(model)}"
        if w.h.is_receiving_paused() != paused: return f"{what}: receiving paused reported as {w.h.is_receiving_paused()}"
    w.h.shut_down(); await idle(); dispose(w.h)
    await open_()
    got = []
    while (e := await w.h.queue.pop()) is not None: got.append((str(e.span_key), e.data, e.retries, e.metadata))
    dispose(w.h)
    if got != model: return f"stored requests after shutdown {got}, expected {model}; {scn}"
    return None


def receiving_scenarios(rnd):
    while True:
        ops = []
        for _ in range(rnd.randint(3, 25)):
            o = rnd.choice(["req"] * 8 + ["pause", "unpause", "unpause", "process", "reopen"])
            ops.append(["req", rnd.randrange(rnd.choice([3, 30])), rnd.randrange(9), rnd.choice([None] * 6 + ["raise", "pause", "shutdown", "yield"])] if o == "req" else [o])
        yield {"page_size": rnd.choice([1, 2, 5, 50]), "ops": ops}


def receiving_exhaustive(tier):
    al = [["req", 0, 1], ["req", 1, 2], ["req", 2, 0, "shutdown"], ["req", 3, 0, "pause"], ["pause"], ["unpause"], ["process"], ["reopen"]]
    for seq in itertools.product(al, repeat=3):
        yield {"page_size": 1, "ops": [list(x) for x in seq]}
