"""Run-time contract of the prometheus translation and of a scrape: random statistics documents against an independent
account of the numbers in them."""
import asyncio, itertools, json, logging, types

KNOWN = {"application", "endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "timestamp", "uptime", "gather_period"}


def num(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
def key(n, v, l): return (n, float(v), tuple(sorted(l.items())))


def expected(doc, svc, inst, excluded):
    app = doc.get("application", {})
    base = {"service": app.get("name", svc), "instance": app.get("instance", inst)}
    out = []
    for n in ("uptime", "gather_period"):
        if num(doc.get(n)): out.append((f"ekosis_{n}_seconds", doc[n], base))
    for sec, names in (("endpoint_data", {"call_count": "ekosis_endpoint_call_count", "p95": "ekosis_endpoint_p95_seconds", "p99": "ekosis_endpoint_p99_seconds"}),
                       ("buffered_endpoint_sizes", {"pending": "ekosis_buffered_endpoint_queue_pending", "error": "ekosis_buffered_endpoint_queue_error"}),
                       ("buffered_sender_sizes", {"pending": "ekosis_buffered_sender_queue_pending", "error": "ekosis_buffered_sender_queue_error"})):
        for g, es in doc.get(sec, {}).items():
            if g in excluded or not isinstance(es, dict): continue
            for e, d in es.items():
                if not isinstance(d, dict): continue
                for k, m in names.items():
                    v = d.get(k)
                    if num(v) and (v >= 0 or k[0] != "p" or k == "pending"): out.append((m, v, dict(base, group=g, endpoint=e)))
    def leaves(v, name):
        if isinstance(v, dict):
            for k, x in v.items():
                s = k.translate({46: "_", 45: "_"})
                yield from leaves(x, name + "_" + s if name else s)
        elif num(v): yield name, v
    for k, v in doc.items():
        if k in KNOWN: continue
        for n, x in leaves(v, k): out.append(("ekosis_custom_" + n, x, base))
    return out


def as_set(got): return sorted(map(lambda t: key(*t), got))


def diff(want, got):
    w, g = as_set(want), as_set(got)
    if w == g: return None
    for x in w:
        if w.count(x) != g.count(x): return f"metric {x} is given {g.count(x)} times instead of {w.count(x)}"
    for x in g:
        if x not in w: return f"metric {x} is given, and nothing in the document accounts for it"


class Client:
    """Stand-in for a client: answers as the scenario says."""
    def __init__(self, **kw): self.kw = kw
    async def send_message(self, route, data, response_type, *a, **k):
        t = Client.targets[self.kw.get("server_port", self.kw.get("server_path"))]
        Client.asked.append((route, data.model_dump()))
        await asyncio.sleep(0)
        if t["doc"] is None: raise ConnectionRefusedError("refused")
        return response_type(statistics=json.loads(json.dumps(t["doc"])))


def scrape(s):
    from ekosis_prometheus import scraper as M
    from ekosis_prometheus.service_discovery import DiscoveredService as D
    pushed, saved = [], {n: getattr(M, n) for n in ("push_to_gateway", "UDPClient", "TransientTCPClient", "TransientUDSClient", "AppConfiguration")}
    def push(gw, job, registry):
        got = [(x.name, x.value, dict(x.labels)) for f in registry.collect() for x in f.samples]
        pushed.append((gw, job, got))
        if s.get("push_fails"): raise OSError("no gateway")
    cfg = types.SimpleNamespace(extra={"PUSHGATEWAY": "gw:1", "JOB_NAME": "job"}, name="app", instance="0", stats_keeper=types.SimpleNamespace(gather_period=1))
    logging.disable(logging.CRITICAL)
    try:
        M.push_to_gateway = push
        M.AppConfiguration = lambda *a, **k: cfg
        for n in ("UDPClient", "TransientTCPClient", "TransientUDSClient"): setattr(M, n, Client)
        services, Client.targets, Client.asked = [], {}, []
        for i, t in enumerate(s["targets"]):
            services.append(D(name=t["name"], instance=t["instance"], protocol=t["protocol"], host=None if t["protocol"] == "uds" else "localhost", port=None if t["protocol"] == "uds" else i, path=str(i) if t["protocol"] == "uds" else None))
            Client.targets[str(i) if t["protocol"] == "uds" else i] = t
        sc = M.EkosisPrometheusScraper(services)
        for rnd in range(s.get("rounds", 1)):
            pushed.clear(); Client.asked.clear()
            asyncio.run(sc._scrape_and_push())
            if len(pushed) != 1: return f"pushed {len(pushed)} times in one scrape"
            if pushed[0][:2] != ("gw:1", "job"): return f"pushed to {pushed[0][:2]}"
            want = []
            reach = [t for t in s["targets"] if t["protocol"] in ("tcp", "udp", "uds")]
            for t in reach:
                if t["doc"] is None: want.append(("ekosis_service_health", 0, {"service": t["name"], "instance": t["instance"]})); continue
                app = t["doc"].get("application", {})
                a, b = app.get("name", t["name"]), app.get("instance", t["instance"])
                want.append(("ekosis_service_health", 1, {"service": a, "instance": b}))
                want += expected(t["doc"], a, b, {"eco"})
            bad = diff(want, pushed[0][2])
            if bad: return "scrape: " + bad
            if len(Client.asked) != len(reach) or any(r != "eco.statistics.get" or d != {"type": "gathered"} for r, d in Client.asked): return f"asked {Client.asked}"
        return None
    finally:
        logging.disable(logging.NOTSET)
        for n, v in saved.items(): setattr(M, n, v)


def run(s):
    from ekosis_prometheus import stats_translator as M
    if s["kind"] == "scrape": return scrape(s)
    ex = s.get("exclude")
    args = [json.loads(json.dumps(s["doc"])), "svc", "inst"] + ([set(ex)] if ex is not None else [])
    try: got = list(M.translate_gathered_stats(*args))
    except Exception as e: return f"translation fails: {e!r}"
    bad = diff(expected(s["doc"], "svc", "inst", {"eco"} if ex is None else set(ex)), got)
    if bad: return bad
    if args[0] != s["doc"]: return "the document is changed by its translation"
    return None


NAMES = ["a", "b", "eco", "app", "x.y", "x-y", "p95", "call_count", "pending", "uptime", "group", "name", "", "é", "endpoint_data", "error", "instance"]
VALUES = [0, 1, -1, -1.0, 0.5, 0.0, 17, 2 ** 40, 1e-9]


def number(r): return r.choice(VALUES)
def entry(r, keys):
    d = {}
    for k in keys:
        x = r.random()
        if x < .7: d[k] = number(r)
        elif x < .8: d[k] = None
    if r.random() < .2: d["other"] = number(r)
    return d
def section(r, keys):
    d = {}
    for g in r.sample(NAMES, r.randint(0, 3)):
        d[g] = {e: (entry(r, keys) if r.random() < .9 else number(r)) for e in r.sample(NAMES, r.randint(0, 3))} if r.random() < .9 else number(r)
    return d
def tree(r, depth):
    x = r.random()
    if depth == 0 or x < .4: return number(r)
    if x < .45: return None
    if x < .5: return "text"
    return {k: tree(r, depth - 1) for k in r.sample(["a", "b", "c", "x.y", "x-z", "q"], r.randint(0, 3))}
def document(r):
    d = {}
    def part(n, f):
        if r.random() < .8: d[n] = f()
    order = [("application", lambda: {k: v for k, v in (("name", "doc_name"), ("instance", "7")) if r.random() < .7}),
             ("uptime", lambda: r.choice(VALUES + [None])), ("gather_period", lambda: r.choice(VALUES + [None])), ("timestamp", lambda: 123.5),
             ("endpoint_data", lambda: section(r, ("call_count", "p95", "p99"))), ("buffered_endpoint_sizes", lambda: section(r, ("pending", "error"))),
             ("buffered_sender_sizes", lambda: section(r, ("pending", "error")))]
    for k in r.sample(["custom", "jobs", "my-stat", "eco", "name", "p95"], r.randint(0, 3)): order.append((k, lambda: tree(r, 3)))
    r.shuffle(order)
    for n, f in order: part(n, f)
    return d


def distinct(doc):
    """Metrics of different numbers get different names (what the property is about)."""
    w = [(n, tuple(sorted(l.items()))) for n, v, l in expected(doc, "svc", "inst", set())]
    return len(w) == len(set(w))


def exhaustive(tier):
    opts = {"endpoint_data": [("call_count", "p95", "p99")], "buffered_endpoint_sizes": [("pending", "error")], "buffered_sender_sizes": [("pending", "error")]}
    for sec, (keys,) in opts.items():
        for g, e in itertools.product(("a", "eco", ""), ("b", "eco", "")):
            for vals in itertools.product((None, -1.0, 0, 2.5), repeat=len(keys)):
                yield {"kind": "translate", "doc": {sec: {g: {e: dict(zip(keys, vals)), "z": {}}}}}
    for ex in (None, [], ["eco"], ["a"], ["a", "b"]):
        for sec, (keys,) in opts.items():
            yield {"kind": "translate", "exclude": ex, "doc": {sec: {g: {"e": {k: i for i, k in enumerate(keys)}} for g in ("a", "b", "eco")}}}
    for app in ({}, {"name": "n"}, {"instance": "i"}, {"name": "n", "instance": "i"}):
        for up, gp in itertools.product((None, 0, 5, 0.5, -1), repeat=2):
            yield {"kind": "translate", "doc": {"application": app, "uptime": up, "gather_period": gp}}
    for v in (0, -1, {"a": 1}, {"a": {"b": 2, "c": {"d": 3}}, "e": -4}, {"x.y": {"u-v": 1}}, {"a": None, "b": "text", "c": {}}, None, "text", {"": 1}, {"": {"": 2}}):
        for k in ("custom", "my-stat", "eco", ""): yield {"kind": "translate", "doc": {k: v}}
    doc = {"application": {"name": "n", "instance": "1"}, "uptime": 5, "endpoint_data": {"a": {"b": {"call_count": 3, "p95": .5, "p99": -1.0}}}, "custom": {"x": 1}}
    t = lambda i, d, p="tcp": {"name": f"s{i}", "instance": str(i), "protocol": p, "doc": d}
    own = lambda n: dict(doc, application={"name": n, "instance": "1"})
    for kinds in itertools.product(("ok", "down", "empty", "unknown"), repeat=3):
        yield {"kind": "scrape", "rounds": 2, "targets": [t(i, {"ok": own(f"n{i}"), "down": None, "empty": {}, "unknown": {}}[k], "other" if k == "unknown" else ("tcp", "udp", "uds")[i]) for i, k in enumerate(kinds)]}
    yield {"kind": "scrape", "rounds": 2, "push_fails": True, "targets": [t(0, doc)]}


def scenarios(r):
    while True:
        if r.random() < .85:
            d = document(r)
            if not distinct(d): continue
            s = {"kind": "translate", "doc": d}
            if r.random() < .5: s["exclude"] = r.sample(NAMES, r.randint(0, 3))
            yield s
        else:
            ts = []
            for i in range(r.randint(0, 4)):
                d = document(r) if r.random() < .7 else None
                if d is not None:
                    if not distinct(d): d = {}
                    d["application"] = {"name": f"n{i}", "instance": "0"}
                ts.append({"name": f"s{i}", "instance": "0", "protocol": r.choice(["tcp", "udp", "uds", "other"]), "doc": d})
            yield {"kind": "scrape", "rounds": r.randint(1, 2), "targets": ts, "push_fails": r.random() < .2}
