"""Run-time contract of queue management: two buffered endpoints and two buffered senders on real files, driven
through the registered management functions, compared with lists of items and flags."""
import asyncio, itertools, shutil
from dv import env
from .queue_rt import key
from .buffered_rt import D, E, PAYLOADS, dispose
from .errors import endpoint_fn
from .manage import HANDLER, SENDER, ERRORS

_n = itertools.count()
MOD = {"handler": "ekosis.standard_endpoints.buffered_handler_manager", "sender": "ekosis.standard_endpoints.buffered_sender_manager"}


class One:
    def __init__(self, kind, route, page):
        self.kind, self.route, self.busy = kind, route, False
        me = self
        async def wait():
            me.busy = True
            await asyncio.sleep(3600)
        if kind == "handler":
            from ekosis.requests.buffered_handler import BufferedHandler
            async def fn(dto): await wait()
            self.h = BufferedHandler(route, fn, D(), page, 3, {"dto"})
        else:
            from ekosis.sending.buffered_sender_class import BufferedSenderClass
            class Cl:
                async def send_message(self, *a, **k): await wait()
            self.h = BufferedSenderClass(Cl(), route, D(), E(), 0, page, 3)
        self.P, self.X, self.flags = {}, {}, {f: False for f in (("receiving", "processing") if kind == "handler" else ("send_process",))}
    def real_flags(self):
        return {f: getattr(self.h, f"is_{f}_paused")() for f in self.flags}
    async def differs(self, keys):
        h = self.h
        if self.real_flags() != self.flags: return f"paused flags {self.real_flags()}, expected {self.flags}"
        if await h.error_queue_size() != len(self.X): return f"{await h.error_queue_size()} items in the error queue, expected {len(self.X)}"
        ks = [str(k) for k in await h.get_first_x_error_span_keys(1000)]
        if ks != list(self.X): return f"error queue holds {ks}, expected {list(self.X)}"
        for k in keys:
            e = await h.inspect_request_in_error_queue(k)
            if (e.model_dump() if e is not None else None) != self.X.get(str(k)): return f"error item {k} is {e}, expected {self.X.get(str(k))}"
        if not self.busy:
            if await h.pending_queue_size() != len(self.P): return f"{await h.pending_queue_size()} items pending, expected {len(self.P)}"
            for k in keys:
                e = await h.queue.inspect_pending_q_span_key(k)
                if e != self.P.get(str(k)): return f"pending item {k} is {e}, expected {self.P.get(str(k))}"
        return None


async def go(s, d):
    from ekosis.state_keepers.buffered_handler_keeper import BufferedHandlerKeeper
    from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper
    n = next(_n)
    base = f"qa{n}z"
    names = [base + ".x", base, base.upper(), base + ".", f"qa{n}", base + ".x.y", "", " " + base, "x", base + ".X"]       # three registered, the rest unknown
    all_, keys = [], [key(i) for i in range(s.get("keys", 4))]
    messages = {}
    try:
        for kind in ("handler", "sender"):
            for j in range(3):
                # a handler and a sender share their route keys: each kind has its own table
                o = One(kind, names[j], s["page"])
                all_.append(o)
                await o.h.setup(d, "app" + kind, "0")
                (BufferedHandlerKeeper().add_buffered_handler if kind == "handler" else BufferedSenderKeeper().add_buffered_sender)(o.h)
        for i, (who, where, k, p) in enumerate(s["fill"]):
            o, kk, data = all_[who % 6], keys[k % len(keys)], D()(**PAYLOADS[p % len(PAYLOADS)])
            if where: await o.h.queue.push_error(kk, data, "why")
            else: await o.h.queue.push_pending(kk, data, 0)
            (o.X if where else o.P).setdefault(str(kk), data.model_dump())
        for step, (kind, op, j, k) in enumerate(s["ops"]):
            what = f"step {step} {kind} {op} on {j}, key {k}, of {s}"
            fn, T = endpoint_fn(MOD[kind], f"eco.buffered_{kind}.{op}")
            o = next((x for x in all_ if x.kind == kind and x.route == names[j]), None)
            kk = keys[k % len(keys)]
            f = {"queue_route_key": names[j]}
            if "span_key" in T.model_fields: f["span_key"] = kk
            r = await fn(dto=T(**f))
            doc = type(r).model_validate_json(r.model_dump_json()) and r.model_dump(mode="json")
            item, absent = None, False
            if o is not None:
                w = op.split(".")
                if w[-1] in ("pause", "unpause"):
                    for g in o.flags:
                        if w[0] in (g, "all"): o.flags[g] = w[-1] == "pause"
                elif op == "errors.clear": o.X = {}
                elif op == "errors.reprocess.all":
                    for a, b in o.X.items(): o.P.setdefault(a, b)
                    o.X = {}
                elif op in ("errors.reprocess.one", "errors.pop_request", "errors.inspect_request"):
                    item = o.X.get(str(kk)); absent = item is None
                    if not absent and op != "errors.inspect_request": o.X.pop(str(kk))
                    if not absent and op == "errors.reprocess.one": o.P.setdefault(str(kk), item)
                if "reprocess" in w:                                  # whether processing is paused afterwards is not claimed
                    for g in o.flags:
                        if g != "receiving": o.flags[g] = o.real_flags()[g]
            for x in all_:
                bad = await x.differs(keys)
                if bad: return f"{what}: {x.kind} {x.route}{' (addressed)' if x is o else ' (not addressed)'}: {bad}"
            m = messages.setdefault((kind, op, k), {})
            m["unknown" if o is None else "absent" if absent else "done"] = r.message.replace("[" + names[j] + "]", "?")
            if len(set(m.values())) != len(m): return f"{what}: the message {r.message!r} does not tell an unknown one or an absent item apart"
            if o is None or absent:
                if doc["queue_data"] is not None or doc["request_data"] is not None: return f"{what}: answered {doc} for {'an unknown one' if o is None else 'an absent item'}"
                continue
            if op == "errors.get_first_10":
                if doc["queue_data"] != list(o.X)[:10]: return f"{what}: lists {doc['queue_data']}, expected {list(o.X)[:10]}"
                continue
            want = {"route_key": o.route, "database_sizes": {"pending": await o.h.pending_queue_size(), "error": len(o.X)}, **{g + "_paused": v for g, v in o.flags.items()}}
            if doc["queue_data"] != want: return f"{what}: reports {doc['queue_data']}, expected {want}"
            if doc["request_data"] != item: return f"{what}: reports the item {doc['request_data']}, expected {item}"
        return None
    finally:
        me = asyncio.current_task()
        for t in asyncio.all_tasks():
            if t is not me: t.cancel()
        await asyncio.sleep(0); await asyncio.sleep(0)
        for o in all_: dispose(o.h)


def run(s):
    d = env.scratch_dir("m")
    try:
        return asyncio.run(asyncio.wait_for(go(s, d), 60))
    except Exception as e:
        return env.escaped(e, s)
    finally:
        shutil.rmtree(d, ignore_errors=True)


FILL = [(w, x, k, k + w) for w in range(6) for x in (0, 1) for k in (range(0, 3) if x else (2,))]


def exhaustive(tier):
    for kind, ops in (("handler", HANDLER + ERRORS), ("sender", SENDER + ERRORS)):
        pre = [[]] + [[(kind, o, j, 0)] for o in (HANDLER[1::2] if kind == "handler" else SENDER[1:2]) for j in (0, 1)]
        for p in pre if tier != "quick" else pre[:3]:
            for o in ops:
                keys = (0, 2, 3) if "one" in o or "request" in o else (0,)
                yield {"page": 2, "fill": FILL, "keys": 4, "ops": p + [(kind, o, j, k) for k in keys for j in (1, 3 + k)] + [(kind, o, 0, keys[-1])]}
    yield {"page": 3, "keys": 14, "fill": [(w, 1, (5 * k + w) % 14, k) for w in range(6) for k in range(14)], "ops": [(a, "errors.get_first_10", j, 0) for a in ("handler", "sender") for j in (0, 1, 2)]}


def scenarios(rnd):
    while True:
        nk = rnd.choice([3, 4, 12])
        fill = [(rnd.randrange(6), rnd.random() < 0.7, rnd.randrange(nk), rnd.randrange(5)) for _ in range(rnd.randint(0, 20))]
        ops = []
        for _ in range(rnd.randint(1, 12)):
            kind = rnd.choice(["handler", "sender"])
            ops.append((kind, rnd.choice((HANDLER if kind == "handler" else SENDER) + ERRORS + ERRORS), rnd.choice([0, 0, 1, 1, 2, rnd.randrange(3, 10)]), rnd.randrange(nk)))
        yield {"page": rnd.choice([1, 2, 3, 10]), "keys": nk, "fill": fill, "ops": ops}
