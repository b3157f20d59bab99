"""Run-time contract of the paginated queue: the real class on real SQLite files against the abstract
sequence view, over histories."""
import asyncio, itertools, os, shutil
from dv import env

VALS = [0, 1, "a", "", "quote\"'\\ \n", None, {"k": [1, {"z": None}]}, [], {}, 3.5, "\u2603\U0001F600", -2**70, True]


def mk():
    import pydantic
    from typing import Any
    class Item(pydantic.BaseModel):
        n: int
        v: Any = None
    return Item


_T = []
def T():
    if not _T: _T.append(mk())
    return _T[0]


def key(i):
    import uuid
    from ekosis.data_transfer_objects import SpanKey, SpanId
    return SpanKey(trace_id=uuid.UUID(int=(i * 0x9E3779B97F4A7C15F39CC0605CEDC834 + 1) % 2**128), span_id=SpanId(int_=(i * 0x9E3779B97F4A7C15) % 2**64))


def run_history(scn, aspects):
    """Returns a description of the first contract violation, or None."""
    from ekosis.queues.paginated_queue import PaginatedQueue
    d = env.scratch_dir("q")
    path = os.path.join(d, "q.sqlite")
    ps = scn["page_size"]
    model, count = [], 0
    q = PaginatedQueue(path, T(), ps)

    async def go():
        nonlocal q, ps, count
        for step, op in enumerate(scn["ops"]):
            what = f"step {step} {op} page_size={ps} history={scn['ops'][:step + 1]}"
            o = op[0]
            if o == "push":
                count += 1
                it = T()(n=count, v=VALS[op[2] % len(VALS)])
                r = await q.push(it, key(op[1]))
                if r != key(op[1]): return f"{what}: push returned {r!r}"
                if op[1] not in [k for k, _ in model]: model.append((op[1], it))
            elif o == "pop":
                r = await q.pop()
                e = model.pop(0)[1] if model else None
                if r != e: return f"{what}: pop returned {r!r}, expected {e!r}"
            elif o == "popk":
                r = await q.pop_span_key(key(op[1]))
                e = next((v for k, v in model if k == op[1]), None)
                model[:] = [x for x in model if x[0] != op[1]]
                if r != e: return f"{what}: pop by key returned {r!r}, expected {e!r}"
            elif o == "insp":
                r = await q.inspect_span_key(key(op[1]))
                e = next((v for k, v in model if k == op[1]), None)
                if r != e: return f"{what}: inspect returned {r!r}, expected {e!r}"
            elif o == "first":
                r = await q.get_first_x_span_keys(op[1])
                e = [str(key(k)) for k, _ in model[:op[1]]]
                if list(r) != e: return f"{what}: first keys {r!r}, expected {e!r}"
            elif o == "clear":
                await q.clear(); model.clear()
            elif o == "reopen":
                q.shut_down()
                close(q)
                ps = op[1] or ps
                q = PaginatedQueue(path, T(), ps)
            if q.size() != len(model): return f"{what}: size {q.size()}, expected {len(model)}"
            if bool(q.is_empty()) != (not model): return f"{what}: is_empty {q.is_empty()}, expected {not model}"
            if "keys" in aspects and o != "first" and step % 3 == 0:
                r = await q.get_first_x_span_keys(len(model) + 1)
                if list(r) != [str(key(k)) for k, _ in model]: return f"{what}: key listing {r!r}, expected {[str(key(k)) for k, _ in model]!r}"
        # drain: everything still there, in order, exactly once
        for i, (k, v) in enumerate(list(model)):
            r = await q.pop()
            if r != v: return f"drain {i} after {scn['ops']} page_size={ps}: got {r!r}, expected {v!r}"
        if await q.pop() is not None or q.size() != 0: return f"drain after {scn['ops']}: queue not empty"
        return None
    try:
        try:
            return asyncio.run(go())
        except Exception as e:
            return env.escaped(e, scn)
    finally:
        close(q)
        shutil.rmtree(d, ignore_errors=True)


def close(q):
    try:
        q.session.close(); q.database_engine.dispose()
    except Exception: pass


def histories(rnd, weights, n_keys=8, length=(5, 60)):
    while True:
        ps = rnd.choice([1, 1, 2, 2, 3, 4, 7])
        L = rnd.randint(*length)
        nk = rnd.choice([2, 4, n_keys, 4 * n_keys, 1000])
        ops, nm = [], list(weights)
        bias = rnd.choice([0.5, 1, 2, 4])
        for _ in range(L):
            o = rnd.choices(nm, [w * (bias if x == "push" else 1) for x, w in weights.items()])[0]
            if o == "push": ops.append(["push", rnd.randrange(nk), rnd.randrange(20)])
            elif o in ("popk", "insp"):
                seen = [x[1] for x in ops if x[0] == "push"]
                ops.append([o, rnd.choice(seen) if seen and rnd.random() < 0.8 else rnd.randrange(nk)])
            elif o == "first": ops.append(["first", rnd.choice([0, 1, 2, 3, 5, 50])])
            elif o == "reopen": ops.append(["reopen", rnd.choice([0, 0, 1, 2, 5])])
            else: ops.append([o])
        yield {"page_size": ps, "ops": ops}


def exhaustive(alphabet, length, sizes=(1, 2)):
    """Every history of the given length; "+" pushes the next fresh key."""
    for ps in sizes:
        for seq in itertools.product(alphabet, repeat=length):
            ops, n = [], 0
            for s in seq:
                if s == "+": ops.append(["push", n, n]); n += 1
                elif s == "dup": ops.append(["push", max(0, n - 1), 3])
                elif s in ("popk", "insp"): ops.append([s, max(0, n - 2)])
                elif s == "popk0": ops.append(["popk", 0])
                elif s == "reopen": ops.append(["reopen", 0])
                elif s == "first": ops.append(["first", 2])
                else: ops.append([s])
            yield {"page_size": ps, "ops": [["push", 900 + i, i] for i in range(0)] + ops}
