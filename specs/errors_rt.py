"""Run-time contract of the error states against a plain table of counts."""
import asyncio, itertools, json
from dv import env

CODES = ["a1", "A1", "b2", "B2", "c", "straße", "", " a1 ", " A1 ", "X\n", "x\n", "ı9", "A_1", "a.1", "A 1"]


def reset():
    from ekosis.state_keepers.error_state_list import ErrorStateList
    l = ErrorStateList()
    for d in list(vars(l).values()) + list(vars(type(l)).values()):
        if isinstance(d, dict): d.clear()
    return l


def run(s):
    from .errors import endpoint_fn
    l = reset()
    m, loop = {}, asyncio.new_event_loop()
    def ask(route, **f):
        fn, T = endpoint_fn("ekosis.standard_endpoints.errors", "eco.error_states." + route)
        return loop.run_until_complete(fn(dto=T(**f))).errors
    try:
        for step, op in enumerate(s["ops"]):
            what = f"step {step} {op} of {s['ops']}"
            try:
                name, c = op[0], op[1] if len(op) > 1 else ""
                C = c.upper()
                if name == "set":
                    l.increment(c, f"d{step}")
                    m.setdefault(C, [f"d{step}", 0])[1] += 1
                elif name == "some":
                    l.clear_some(c, op[2])
                    if C in m and op[2] > 0: m[C][1] = max(0, m[C][1] - op[2])
                elif name == "all":
                    l.clear_all(c)
                    if C in m: m[C][1] = 0
                want = [{"error_id": k, "description": d, "count": n} for k, (d, n) in m.items() if n > 0]
                if name == "endpoint":
                    got = ask("clear", error_id=c, count=op[2])
                    if C in m: m[C][1] = 0 if op[2] == 0 else max(0, m[C][1] - max(0, op[2]))
                    want = [{"error_id": k, "description": d, "count": n} for k, (d, n) in m.items() if n > 0]
                    if srt(got) != srt(want): return f"{what}: the clear endpoint answers {got}, expected {want}"
                got = [e.to_dict() for e in l.get_error_states()]
                if srt(got) != srt(want): return f"{what}: listed {got}, expected {want}"
                if srt(ask("get")) != srt(want): return f"{what}: the get endpoint answers {ask('get')}, expected {want}"
                if srt(json.loads(l.to_json())) != srt(want): return f"{what}: to_json gives {l.to_json()}, expected {want}"
                for x in CODES:
                    if bool(l.has_error_id(x)) != (x.upper() in m): return f"{what}: has_error_id({x!r}) is wrong"
                for e in l.get_error_states():
                    if not e.is_set() or e.get_error_count() != m[e.get_id()][1] or e.get_description() != m[e.get_id()][0]: return f"{what}: keeper of {e.get_id()} reports wrongly"
            except Exception as e:
                return env.escaped(e, what)
        return None
    finally:
        loop.close()
        reset()


def srt(l): return sorted(l, key=lambda e: json.dumps(e, sort_keys=True))


def exhaustive(tier):
    al = [["set", "a1"], ["set", "A1"], ["set", "b2"], ["set", " A1 "], ["all", " A1 "], ["some", "a1", 1], ["some", "a1", 2], ["some", "b2", 0], ["some", "a1", -1], ["some", "zz", 1], ["all", "A1"], ["all", "b2"],
          ["endpoint", "a1", 0], ["endpoint", "a1", 1], ["endpoint", "b2", -2], ["endpoint", "zz", 0]]
    for ln in range(1, 4 if tier == "quick" else 5):
        for q in itertools.product(al, repeat=ln): yield {"ops": [list(x) for x in q]}


def scenarios(rnd):
    while True:
        ops = []
        for _ in range(rnd.randint(1, 40)):
            c = rnd.choice(CODES)
            ops.append(rnd.choice([["set", c], ["set", c], ["set", c], ["some", c, rnd.randint(-2, 5)], ["all", c], ["endpoint", c, rnd.randint(-2, 4)]]))
        yield {"ops": ops}
