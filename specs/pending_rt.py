"""Run-time contract of PendingQueue on real files against two lists of items."""
import asyncio, itertools, os, shutil
from dv import env
from .queue_rt import key

_n = itertools.count()
PAYLOADS = [{}, [], "", 0, None, False, {"n": 1}, {"a": {"b": [1, None, "x"]}}, "text", [1, 2], {"s": "q\"'\n\u2603"}]
RETRIES = [0, 1, 2, 3, 7, 99, 10 ** 6]
REASONS = ["why", "", "  padded \n", "x" * 300, "q\"'\u2603"]
METAS = [None, {}, {"a": 1}, {"b": [1, {"c": None}]}]


async def go(s, d):
    from ekosis.queues.pending_queue import PendingQueue, PendingEntry, ErrorEntry
    ps = s["page"]
    q = PendingQueue(d, "x", ps)
    P, E = [], []                       # [key, data, retries / reason, meta]
    find = lambda l, k: next((i for i, e in enumerate(l) if e[0] == k), None)
    for step, op in enumerate(s["ops"]):
        what = f"step {step} {op} of {s['ops']} (page size {ps})"
        try:
            name = op[0]
            k = key(op[1]) if len(op) > 1 else None
            ks = str(k)
            if name == "pp":
                data, r, m = PAYLOADS[op[2]], RETRIES[op[3]], METAS[op[4]]
                await q.push_pending(k, data, r, m)
                if find(P, ks) is None: P.append([ks, data, r, m or {}])
            elif name == "pe":
                data, r, m = PAYLOADS[op[2]], REASONS[op[3]], METAS[op[4]]
                await q.push_error(k, data, r, m)
                if find(E, ks) is None: E.append([ks, data, r, m or {}])
            elif name == "pop":
                e = await q.pop()
                want = P.pop(0) if P else None
                got = e and [str(e.span_key), e.data, e.retries, e.metadata]
                if (e is None) != (want is None) or e is not None and got != want: return f"{what}: took {got}, expected {want}"
            elif name == "one":
                i = find(E, ks)
                r = await q.move_one_error_to_pending(k)
                want = None
                if i is not None:
                    e = E.pop(i)
                    want = e[1]
                    if find(P, ks) is None: P.append([ks, e[1], 0, e[3]])
                if r != want: return f"{what}: returned {r!r}, expected {want!r}"
            elif name == "all":
                await q.move_all_error_to_pending()
                for e in E:
                    if find(P, e[0]) is None: P.append([e[0], e[1], 0, e[3]])
                E = []
            elif name in ("ip", "ie", "tp", "te"):
                l = P if name[1] == "p" else E
                f = {"ip": q.inspect_pending_q_span_key, "ie": q.inspect_error_q_span_key, "tp": q.pop_pending_q_span_key, "te": q.pop_error_q_span_key}[name]
                i = find(l, ks)
                got, want = await f(k), None if i is None else l[i][1]
                if name[0] == "t" and i is not None: del l[i]
                if got != want or type(got) is not type(want): return f"{what}: got {got!r}, expected {want!r}"
            elif name == "clear": await q.clear_error_queue(); E = []
            elif name == "reopen":
                q.shut_down()
                q = PendingQueue(d, "x", ps)
            sz = await q.get_sizes()
            if sz != {"pending": len(P), "error": len(E)}: return f"{what}: sizes {sz}, expected {len(P)}, {len(E)}"
            if await q.get_pending_size() != len(P) or await q.get_error_size() != len(E) or bool(await q.has_pending()) != bool(P): return f"{what}: sizes are reported wrongly"
            for l, f in ((P, q.inspect_pending_q_span_key), (E, q.inspect_error_q_span_key)):
                for e in l:
                    got = await f(key_of(e[0]))
                    if got != e[1]: return f"{what}: the payload under {e[0]} is {got!r}, expected {e[1]!r}"
            for x in (1, 2, 50):
                got = [str(z) for z in await q.get_first_x_error_span_keys(x)]
                if got != [e[0] for e in E][:x]: return f"{what}: first {x} error keys {got}, expected {[e[0] for e in E][:x]}"
        except Exception as e:
            return env.escaped(e, what)
    # what is left, entry by entry
    try:
        for l, qq in ((P, q.pending_q), (E, q.error_q)):
            for want in l:
                e = await qq.pop()
                got = [str(e.span_key), e.data, e.retries if hasattr(e, "retries") else e.reason, e.metadata]
                if got != want: return f"at the end of {s['ops']} (page size {ps}): {got}, expected {want}"
        q.shut_down()
    except Exception as e:
        return env.escaped(e, f"the end of {s['ops']} (page size {ps})")
    return None


def key_of(t):
    return next(key(i) for i in range(8) if str(key(i)) == t)


def run(s):
    d = env.scratch_dir("pq")
    try: return asyncio.run(go(s, d))
    finally: shutil.rmtree(d, ignore_errors=True)


def exhaustive(tier):
    al = [["pp", 0, 6, 2, 2], ["pp", 1, 0, 1, 0], ["pe", 0, 7, 0, 3], ["pe", 1, 0, 1, 2], ["pe", 2, 4, 0, 1], ["pop"], ["one", 0], ["one", 1], ["one", 3], ["all"], ["te", 1], ["ie", 2], ["tp", 0], ["clear"], ["reopen"]]
    for ln in range(1, 3 if tier == "quick" else 4):
        for q in itertools.product(al, repeat=ln): yield {"page": 1 + ln % 2, "ops": [list(x) for x in q]}


def scenarios(rnd):
    while True:
        ops = []
        for _ in range(rnd.randint(2, 14)):
            k = rnd.randrange(5)
            ops.append(rnd.choice([["pp", k, rnd.randrange(len(PAYLOADS)), rnd.randrange(7), rnd.randrange(4)], ["pe", k, rnd.randrange(len(PAYLOADS)), rnd.randrange(5), rnd.randrange(4)], ["pe", k, rnd.randrange(len(PAYLOADS)), 0, rnd.randrange(4)],
                                   ["pop"], ["one", k], ["one", k], ["all"], [rnd.choice(["ip", "ie", "tp", "te"]), k], ["clear"] if rnd.random() < .3 else ["ie", k], ["reopen"] if rnd.random() < .4 else ["one", k]]))
        yield {"page": rnd.choice([1, 2, 3, 100]), "ops": ops}
