"""Run-time contract of the statistics keeper: sequences of recordings, requests and period ends on virtual time,
compared with plain sums per path."""
import asyncio, copy, itertools, json, statistics, types
from dv import env
from .client_rt import Sel
from .errors import endpoint_fn


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1.0
        s = Sel(); super().__init__(s); s.loop = self
    def time(self): return self.now


class Q:
    n = 0
    def size(self): return self.n


def flat(d, pre=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict): out.update(flat(v, pre + (k,)) or {pre + (k,): {}})
        else: out[pre + (k,)] = v
    return out


class World:
    """A keeper without anything recorded: the containers of the one instance are emptied for the run."""
    def __enter__(self):
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper as S
        endpoint_fn("ekosis.standard_endpoints.statistics", "eco.statistics.get")
        self.S, self.k = S, S()
        self.saved = [(o, n, copy.copy(v)) for o in (S, self.k) for n, v in list(vars(o).items()) if isinstance(v, (dict, list)) and not n.startswith("__")]
        self.plain = dict(vars(self.k))
        for o, n, v in self.saved: getattr(o, n).clear()
        return self.k
    def __exit__(self, *a):
        for n in list(vars(self.k)):
            if n not in self.plain: delattr(self.k, n)
            else: setattr(self.k, n, self.plain[n])
        for o, n, v in self.saved:
            c = getattr(o, n)
            c.clear()
            (c.update if isinstance(c, dict) else c.extend)(v)


class Model:
    def __init__(self, s): self.leaf, self.dur, self.q, self.hist, self.s = {}, {}, {}, [], s
    def add(self, key, v):
        p = tuple(key.split("."))
        self.leaf[p] = self.leaf.get(p, 0) + v
    def update(self, app, inst):
        self.leaf[("gather_period",)] = self.s["period"]
        self.leaf[("application", "name")], self.leaf[("application", "instance")] = app, inst
        self.leaf[("timestamp",)] = self.leaf[("uptime",)] = "time"
        for k, l in self.dur.items():
            if len(l) >= 2:
                q = statistics.quantiles(l, n=100)
                a, b = q[94], q[98]
            else: a, b = (l[0], l[0]) if l else (-1.0, -1.0)
            p = ("endpoint_data",) + tuple(k.split("."))
            self.leaf[p + ("p95",)], self.leaf[p + ("p99",)] = float(a), float(b)
        for k, q in self.q.items(): self.leaf[tuple(k.split("."))] = q.n
    def gather(self, app, inst):
        self.update(app, inst)
        self.hist = ([dict(self.leaf)] + self.hist)[:self.s["hist"]]
        self.leaf = {k: 0 for k in self.leaf}
        self.dur = {k: [] for k in self.dur}


def same(got, want):
    g = flat(got)
    if set(g) != set(want): return f"has {sorted(set(g) ^ set(want))} too much or too little"
    for k, v in want.items():
        if v == "time":
            if not isinstance(g[k], (int, float)) or g[k] < 0: return f"{k} is {g[k]}"
        elif type(v) is float:
            if abs(g[k] - v) > 1e-9: return f"{'.'.join(k)} is {g[k]}, expected {v}"
        elif g[k] != v: return f"{'.'.join(k)} is {g[k]}, expected {v}"
    return None


async def go(s, k, m):
    from ekosis.configuration.config_models import AppConfiguration
    c = AppConfiguration()
    k.set_gather_period(s["period"]); k.set_history_length(s["hist"])
    fn, T = endpoint_fn("ekosis.standard_endpoints.statistics", "eco.statistics.get")
    async def serve():
        async with k: await k.gather_statistics()
    task, elapsed, kept = None, 0, []
    for i, (op, *a) in enumerate(s["ops"]):
        what = f"step {i} {op} {a} of {s}"
        if op == "start":
            if task is None: task, elapsed = asyncio.ensure_future(serve()), 0; await asyncio.sleep(0.5)
        elif op == "inc":
            if len(a) > 1: k.increment(a[0], a[1]); m.add(*a)
            else: k.increment(a[0]); m.add(a[0], 1)
        elif op == "dec":
            if len(a) > 1: k.decrement(a[0], a[1]); m.add(a[0], -a[1])
            else: k.decrement(a[0]); m.add(a[0], -1)
        elif op == "set": k.set_statistic_value(*a); m.leaf[tuple(a[0].split("."))] = a[1]
        elif op == "track":
            if a[0] not in m.dur: k.track_endpoint_data(a[0]); m.add(f"endpoint_data.{a[0]}.call_count", 0); m.dur[a[0]] = []
        elif op == "call":
            if a[0] in m.dur: k.add_endpoint_stats(*a); m.add(f"endpoint_data.{a[0]}.call_count", 1); m.dur[a[0]].append(a[1])
        elif op == "queue":
            if a[0] not in m.q: m.q[a[0]] = Q(); k.add_persisted_queue(a[0], m.q[a[0]])
            m.q[a[0]].n = a[1]
        elif op == "wait":
            await asyncio.sleep(a[0])
            if task is not None:
                for _ in range(a[0]):
                    elapsed += 1
                    if elapsed % s["period"] == 0: m.gather(c.name, c.instance)
        elif op == "stop":
            if task is not None:
                t, task = task, None
                await k.__aexit__(None, None, None)
                n = len(m.hist)
                await asyncio.sleep(2 * s["period"] + 3)
                if not t.done(): return f"gathering does not end on {what}"
        else:
            r = await fn(T(type=op))
            doc = json.loads(r.model_dump_json())["statistics"]
            if op == "current":
                m.update(c.name, c.instance)
                bad = same(doc, m.leaf)
            elif op == "full":
                bad = f"{len(doc)} periods" if len(doc) != len(m.hist) else next((f"period {j}: {b}" for j, (x, w) in enumerate(zip(doc, m.hist)) if (b := same(x, w))), None)
            else:
                bad = same(doc, m.hist[0]) if m.hist else (None if doc == {} else f"something gathered: {doc}")
            if bad: return f"{bad}, {what}"
    h = await k.get_full_gathered_statistics()
    if len(h) != len(m.hist): return f"{len(h)} periods in the history, expected {len(m.hist)}, at the end of {s}"
    for j, (x, w) in enumerate(zip(h, m.hist)):
        b = same(x, w)
        if b: return f"period {j}: {b}, at the end of {s}"
    return None


def run(s):
    with World() as k:
        loop = Loop()
        try: return loop.run_until_complete(go(s, k, Model(s)))
        except Exception as e: return env.escaped(e, s)
        finally:
            try:
                for t in asyncio.all_tasks(loop): t.cancel()
                loop.run_until_complete(asyncio.sleep(0))
            except Exception: pass
            loop.close()


KEYS = ["a", "b.c", "b.d", "b.e.f", "x_y.z", "b.e.g.h", "p95", "custom.endpoint_data.x"]
EPS = ["e", "e.f", "app.do_it", "eco.statistics.get", "e.call"]
QS = ["buffered_endpoint_sizes.q.pending", "buffered_endpoint_sizes.q.error", "buffered_sender_sizes.a.b.pending"]


def exhaustive(tier):
    rec = [("inc", "a"), ("inc", "b.c", 5), ("dec", "b.c", 2), ("dec", "a"), ("set", "b.d", 7), ("track", "e"), ("call", "e", 0.5), ("queue", QS[0], 3)]
    for h in (0, 1, 2, 5):
        for p in (1, 2, 3):
            yield {"period": p, "hist": h, "ops": [("start",)] + [x for i in range(4) for x in rec + [("call", "e", 0.1 * i), ("wait", p), ("full",), ("gathered",), ("current",)]] + [("inc", "a"), ("stop",), ("wait", 9), ("full",), ("current",)]}
    yield {"period": 2, "hist": 3, "ops": [("gathered",), ("full",), ("current",)]}
    for a, b in itertools.product(rec, rec):
        for tail in ([("current",)], [("current",), ("current",), ("wait", 2), ("current",), ("gathered",)], [("wait", 1), ("current",), ("wait", 1), ("gathered",), ("wait", 2), ("full",)]):
            yield {"period": 2, "hist": 2, "ops": [("start",), ("track", "e"), a, b] + tail}


def scenarios(rnd):
    num = lambda: rnd.choice([0, 1, 2, 5, 1000, -3, 10**12])
    while True:
        ops = []
        for _ in range(rnd.randint(3, 25)):
            r = rnd.random()
            if r < 0.2: ops.append(("inc", rnd.choice(KEYS)) if rnd.random() < 0.5 else ("inc", rnd.choice(KEYS), num()))
            elif r < 0.3: ops.append(("dec", rnd.choice(KEYS)) if rnd.random() < 0.5 else ("dec", rnd.choice(KEYS), num()))
            elif r < 0.35: ops.append(("set", rnd.choice(KEYS), num()))
            elif r < 0.45: ops.append(("track", rnd.choice(EPS)))
            elif r < 0.65: ops.append(("call", rnd.choice(EPS), rnd.choice([0.0, 0.25, 1.5, 3.0, 0.001])))
            elif r < 0.72: ops.append(("queue", rnd.choice(QS), rnd.randrange(9)))
            elif r < 0.85: ops.append(("wait", rnd.randint(1, 4)))
            elif r < 0.88: ops.append(("start",))
            else: ops.append((rnd.choice(["current", "full", "gathered", "anything"]),))
        if rnd.random() < 0.7: ops.insert(0, ("start",))
        yield {"period": rnd.choice([1, 1, 2, 3, 7]), "hist": rnd.choice([0, 1, 1, 2, 3, 12]), "ops": ops}
