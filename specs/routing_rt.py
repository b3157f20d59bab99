"""Run-time contracts of routing: the real router, middleware managers and endpoint decorators against the
expected calls, over generated sets of endpoints, middleware and requests."""
import asyncio, itertools
from dv import env
from .queue_rt import key
from .buffered_rt import EXC, Boom

_n = itertools.count()
_c = {}


def types():
    if not _c:
        import pydantic
        class P(pydantic.BaseModel):
            n: int
            s: str = ""
        class R(pydantic.BaseModel):
            v: int = 0
            by: str = ""
        _c.update(P=P, R=R)
    return _c["P"], _c["R"]


PARAMS = [[], ["dto"], ["span_key"], ["dto", "span_key"], ["span_key", "dto"], ["dto", "extra=1"], ["*", "dto"], ["*", "span_key", "dto=None"]]
DATA = [{"n": 1}, {"n": 7, "s": "x"}, {}, {"n": "no"}, {"n": 0, "other": 1}, {"s": "only"}, {"n": 5, "s": ""}]


def make_fn(params, log, name, act, R):
    """A function with exactly these parameters; `act` = [kind, arg]."""
    from ekosis.exceptions.application_level import ApplicationProcessingException
    async def body(kw):
        log.append((name, kw))
        await asyncio.sleep(0)
        if act[0] == "raise": raise EXC[act[1] % len(EXC)]()
        if act[0] == "appl": raise ApplicationProcessingException(f"message {act[1]}")
        if act[0] == "value": return True
        return R(v=act[1], by=name)
    names = [p.split("=")[0] for p in params if p != "*"]
    ns = {"body": body}
    exec(f"async def fn({', '.join(params)}):\n    return await body({{{', '.join(f'{n!r}: {n}' for n in names)}}})", ns)
    return ns["fn"], names


def clear(mgr):
    for v in vars(mgr).values():
        if isinstance(v, list): v.clear()
    if mgr.get_list(): raise RuntimeError("middleware list is not empty")


def run(scn):
    try:
        return asyncio.run(asyncio.wait_for({"route": route, "buffered": buffered}[scn["mode"]](scn), 30))
    except Exception as e:
        return env.escaped(e, scn)


async def route(scn):
    from ekosis.requests.request_router import RequestRouter, RoutingExceptionBase
    from ekosis.requests.endpoint import endpoint
    from ekosis.middleware.manager import MiddlewareManager
    from ekosis.middleware.middleware_base import MiddlewareBase
    from ekosis.data_transfer_objects import RequestDTO, EmptyDto
    from ekosis.exceptions.application_level import ApplicationProcessingException
    import pydantic
    P, R = types()
    router, mm = RequestRouter(), MiddlewareManager()
    clear(mm)
    sid = next(_n)
    log, table = [], {}
    class M(MiddlewareBase):
        def __init__(self, i, b, a): self.i, self.b, self.a = i, b, a
        async def before_routing(self, **kw):
            log.append((f"before{self.i}", dict(kw)))
            await asyncio.sleep(0)
            if self.b == "raise": raise Boom("before")
            if self.b == "appl": raise ApplicationProcessingException("message before")
            d = kw["protocol_dto"]
            if self.b == "change": return RequestDTO(route_key=d.route_key, span_key=d.span_key, data={**d.data, "n": (d.data.get("n") if isinstance(d.data.get("n"), int) else 0) + 10 ** self.i})
            if self.b == "reroute": return RequestDTO(route_key=f"s{sid}.0", span_key=d.span_key, data=d.data)
            return d
        async def after_routing(self, **kw):
            log.append((f"after{self.i}", dict(kw)))
            await asyncio.sleep(0)
            if self.a == "raise": raise Boom("after")
            if self.a == "appl": raise ApplicationProcessingException("message after")
            if self.a == "change": return R(v=kw["response_dto"].v + 10 ** self.i, by=kw["response_dto"].by) if isinstance(kw["response_dto"], R) else kw["response_dto"]
            return kw["response_dto"]
    class Plain(MiddlewareBase): pass
    mws = []
    for i, (b, a) in enumerate(scn["mw"]):
        m = Plain() if b == a == "default" else M(i, b, a)
        mm.add(m); mws.append((i, b, a))
    for j, (slot, params, typed, act) in enumerate(scn["eps"]):
        rk = f"s{sid}.{slot}"
        fn, names = make_fn(PARAMS[params % len(PARAMS)], log, f"ep{j}", act, R)
        try:
            back = endpoint(rk, P)(fn) if typed else endpoint(rk)(fn)
        except Exception as e:
            if slot in table: continue
            return f"registering {rk} for the first time was refused: {type(e).__name__}: {e}; {scn}"
        if slot in table: return f"registering {rk} twice was not refused; {scn}"
        if back is not fn: return f"endpoint() does not give the function back; {scn}"
        table[slot] = (f"ep{j}", names, P if typed else EmptyDto, act)
    async def one(qi, slot, di):
        data = DATA[di % len(DATA)]
        k = key(5000 + qi)
        rk = f"s{sid}.{slot}" if isinstance(slot, int) else slot
        return k, await router.route_request(protocol_dto=RequestDTO(route_key=rk, span_key=k, data=data), span_key=k)
    for qi, (slot, di) in enumerate(scn["reqs"]):
        what = f"request {qi} to slot {slot} with {DATA[di % len(DATA)]}"
        del log[:]
        k = key(5000 + qi)
        got = exc = None
        try: _, got = await one(qi, slot, di)
        except Exception as e: exc = e
        # expected
        ep = table.get(slot) if isinstance(slot, int) else None
        if ep is None:
            if not isinstance(exc, RoutingExceptionBase) or exc.status != 400: return f"{what}: unknown route gave {got!r}/{exc!r}; {scn}"
            if any(n.startswith("ep") for n, _ in log): return f"{what}: unknown route was handled; {scn}"
            continue
        want_log, dto, fail, res = [], dict(DATA[di % len(DATA)]), None, None
        for i, b, a in mws:
            if b == "default": continue
            want_log.append((f"before{i}", ("data", dict(dto))))
            if b in ("raise", "appl"): fail = b; fmsg = "message before"; break
            if b == "change": dto["n"] = (dto.get("n") if isinstance(dto.get("n"), int) else 0) + 10 ** i
        if fail is None:
            try: obj = ep[2](**dto)
            except pydantic.ValidationError: fail = "valid"
        if fail is None:
            want_log.append((ep[0], {n: v for n, v in (("dto", obj), ("span_key", k), ("extra", 1)) if n in ep[1]}))
            if ep[3][0] in ("raise", "appl"): fail = ep[3][0]; fmsg = f"message {ep[3][1]}"
            else: res = True if ep[3][0] == "value" else R(v=ep[3][1], by=ep[0])
        if fail is None:
            for i, b, a in mws:
                if b == "default": continue
                want_log.append((f"after{i}", ("response", res)))
                if a in ("raise", "appl"): fail = a; fmsg = "message after"; break
                if a == "change" and isinstance(res, R): res = R(v=res.v + 10 ** i, by=res.by)
        names = [n for n, _ in log]
        if names != [n for n, _ in want_log]: return f"{what}: calls {names}, expected {[n for n, _ in want_log]}; {scn}"
        for (n, kw), (_, w) in zip(log, want_log):
            if n.startswith("before"):
                if kw["protocol_dto"].data != w[1]: return f"{what}: {n} got {kw['protocol_dto'].data}, expected {w[1]}; {scn}"
                if kw.get("span_key") != k: return f"{what}: {n} got span key {kw.get('span_key')}; {scn}"
            elif n.startswith("after"):
                if kw["response_dto"] != w[1]: return f"{what}: {n} got {kw['response_dto']!r}, expected {w[1]!r}; {scn}"
                if kw.get("span_key") != k: return f"{what}: {n} got span key {kw.get('span_key')}; {scn}"
            elif kw != w: return f"{what}: endpoint called with {kw}, expected {w}; {scn}"
        if fail is None:
            if exc is not None or got != res: return f"{what}: result {got!r}/{exc!r}, expected {res!r}; {scn}"
        elif fail == "appl":
            if not isinstance(exc, RoutingExceptionBase) or exc.status != 600: return f"{what}: processing error gave {got!r}/{exc!r}; {scn}"
            if fmsg not in exc.message: return f"{what}: message {exc.message!r} does not carry {fmsg!r}; {scn}"
        elif fail == "valid":
            if not isinstance(exc, pydantic.ValidationError): return f"{what}: wrong payload gave {got!r}/{exc!r}; {scn}"
        elif exc is None or isinstance(exc, RoutingExceptionBase): return f"{what}: exception gave {got!r}/{exc!r}; {scn}"
    clear(mm)
    return None


META = [None, {}, {"a": 1}, {"a": 2, "b": None}, {"b": {"x": []}}, {"c": 3, "a": 9}]


async def buffered(scn):
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
    from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
    P, R = types()
    mm = BufferedMiddlewareManager()
    clear(mm)
    log = []
    class M(BufferedMiddlewareBase):
        def __init__(self, i, meta, fail): self.i, self.meta, self.fail = i, meta, fail
        async def go(self, name, *a):
            log.append((name, self.i) + a)
            await asyncio.sleep(0)
            if self.fail == name: raise Boom(name)
        async def before_push(self, span_key, dto):
            await self.go("before_push", span_key, dto)
            return META[self.meta % len(META)]
        async def before_process(self, span_key, dto, metadata, retries): await self.go("before_process", span_key, dto, metadata, retries)
        async def after_process(self, span_key, dto, metadata, success): await self.go("after_process", span_key, dto, metadata, success)
    class Plain(BufferedMiddlewareBase): pass
    active = []
    for i, (meta, fail) in enumerate(scn["mw"]):
        mm.add(Plain() if fail == "default" else M(i, meta, fail))
        if fail != "default": active.append((i, meta, fail))
    k, d = key(3), P(n=1)
    md = {"m": 1}
    for name, args in (("before_push", (k, d)), ("before_process", (k, d, md, scn["retries"])), ("after_process", (k, d, md, scn["success"]))):
        del log[:]
        got = exc = None
        try:
            if name == "before_push": got = await mm.collect_push_metadata(*args)
            elif name == "before_process": got = await mm.run_before_process(*args)
            else: got = await mm.run_after_process(*args)
        except Exception as e: exc = e
        want, meta, failed = [], {}, False
        for i, m, f in active:
            want.append((name, i) + args)
            if f == name: failed = True; break
            meta.update(META[m % len(META)] or {})
        if log != want: return f"{name}: hook calls {log}, expected {want}; {scn}"
        if failed != isinstance(exc, Boom): return f"{name}: {got!r}/{exc!r}; {scn}"
        if name == "before_push" and not failed and got != meta: return f"metadata {got}, expected {meta}; {scn}"
    clear(mm)
    return None


BK, AK = ["pass", "change", "pass", "change", "reroute", "raise", "appl"], ["pass", "change", "pass", "change", "raise", "appl"]


def scenarios(rnd):
    while True:
        if rnd.random() < .3:
            yield {"mode": "buffered", "mw": [[rnd.randrange(6), rnd.choice(["", "", "", "default", "before_push", "before_process", "after_process"])] for _ in range(rnd.randint(0, 5))], "retries": rnd.randint(0, 3), "success": rnd.choice([True, False])}
            continue
        mw = [["default", "default"] if rnd.random() < .1 else [rnd.choice(BK if rnd.random() < .5 else BK[:4]), rnd.choice(AK if rnd.random() < .5 else AK[:4])] for _ in range(rnd.choice([0, 0, 1, 2, 3, 4]))]
        eps = [[rnd.randrange(5), rnd.randrange(len(PARAMS)), rnd.random() < .7, rnd.choice([["ok", rnd.randrange(9)], ["ok", 3], ["value", 0], ["raise", rnd.randrange(9)], ["appl", rnd.randrange(9)]])] for _ in range(rnd.randint(0, 5))]
        yield {"mode": "route", "mw": mw, "eps": eps, "reqs": [[rnd.choice([0, 1, 2, 3, 4, 4, 9, "", "nowhere", "S0.0"]), rnd.randrange(len(DATA))] for _ in range(rnd.randint(1, 6))]}


def exhaustive(tier):
    for p in range(len(PARAMS)):
        for typed in (True, False):
            for act in (["ok", 1], ["value", 0], ["raise", 0], ["appl", 2]):
                yield {"mode": "route", "mw": [["change", "change"]] * (p % 3), "eps": [[0, p, typed, act], [1, (p + 1) % 8, typed, ["ok", 2]], [0, 0, False, ["ok", 5]]], "reqs": [[0, d] for d in range(len(DATA))] + [[1, 0], [2, 0]]}
    for seq in itertools.product(["pass", "change", "raise", "appl"], repeat=2):
        for s2 in itertools.product(["pass", "change", "raise", "appl"], repeat=2):
            yield {"mode": "route", "mw": [list(x) for x in zip(seq, s2)], "eps": [[0, 3, True, ["ok", 1]]], "reqs": [[0, 0], [7, 0]]}
    for n in (0, 1, 2, 3):
        for ms in itertools.product(range(6), repeat=n):
            yield {"mode": "buffered", "mw": [[m, ""] for m in ms], "retries": n, "success": bool(n % 2)}
