"""Run-time contract of logging: the real handler, formatter and logger on files in a scratch directory."""
import json, logging, os, shutil, threading, types
from dv import env
from .logfile import BANDS, LEVELS

MSGS = ["a", "", "two\nlines", "ünï €", "{\"x\": 1}", "%d", "\u2028 \x00 \x7f", "x" * 300]


def record(level, msg, n, args=()):
    r = logging.LogRecord("n", level, "/p/f.py", n, msg, args, None, "fn")
    r.created = 1700000000.0 + n
    return r


def in_request(k, f):
    """runs f while the k-th request is handled (0: none)"""
    from ekosis.requests import request_context as rc
    from ekosis.data_transfer_objects import SpanKey
    t = rc._set_current_span_key(SpanKey.from_bytes(k.to_bytes(16, "big") + k.to_bytes(8, "big")) if k else None)
    try: return f()
    finally: rc._reset_current_span_key(t)


def lines(base):
    """all lines, oldest file first"""
    d, b = os.path.split(base)
    olds = sorted((f for f in os.listdir(d) if f.startswith(b + ".")), key=lambda f: -int(f[len(b) + 1:]))
    out = []
    for f in olds + ([b] if os.path.exists(base) else []):
        t = open(os.path.join(d, f), encoding="utf-8", newline="\n").read()
        if t and not t.endswith("\n"): return None, f"{f} ends in the middle of a line: {t[-60:]!r}"
        out += t.split("\n")[:-1]
    return out, None


def check_lines(base, want, whole, free=()):
    got, bad = lines(base)
    if bad: return bad
    try: docs = [json.loads(x) for x in got]
    except ValueError as e: return f"a line of the log is not a record: {e}: {got}"
    for x in free:      # logged at the same time: anywhere, but once
        k = [i for i, d in enumerate(docs) if d.get("body") == x]
        if len(k) > 1 or whole and len(k) != 1: return f"record {x!r} is {len(k)} times in the log"
        for i in k: del docs[i]
    if len(docs) > len(want) or whole and len(docs) != len(want): return f"{len(docs)} records in the log, {len(want)} were logged: {[d.get('body') for d in docs]}"
    for d, (lv, msg, n) in zip(docs, want):
        num, txt = BANDS.get(lv, (0, "UNSPECIFIED"))
        if d["body"] != msg: return f"record {n} ({msg!r}) is {d['body']!r} in the log; log {[x['body'] for x in docs]}, logged {[w[1] for w in want]}"
        if (d["severity_number"], d["severity_text"]) != (num, txt): return f"level {lv} has severity {d['severity_number']} {d['severity_text']}"
        if d["attributes"]["lineno"] != n: return f"record {n} has line {d['attributes']['lineno']}"
        k = n % 3 if msg[:4] not in ("befo",) else 0
        if (d["trace_id"], d["span_id"]) != ((f"{k:032x}", f"{k:016x}") if k else (None, None)): return f"record {n} was logged in request {k}, in the log it has trace and span {d['trace_id']} {d['span_id']}"
        import datetime
        if datetime.datetime.fromisoformat(d["timestamp"]).timestamp() != 1700000000.0 + n: return f"record {n} has time {d['timestamp']}"
    return None


def run(s):
    base = env.scratch_dir("log")
    try: return globals()["run_" + s["kind"]](s, base)
    finally: shutil.rmtree(base)


def run_sev(s, base):
    from ekosis.data_transfer_objects.otlp_log_record import severity_for_levelno
    want = BANDS.get(s["level"], (0, "UNSPECIFIED"))
    got = tuple(severity_for_levelno(s["level"]))
    if got != want: return f"level {s['level']} has severity {got}"
    from ekosis.logs.otlp_formatter import OtlpFormatter
    for args, body in (((), "m %s %d"), ((0, 0), "m 0 0"), (("", 7), "m  7")):
        d = json.loads(OtlpFormatter().format(record(s["level"], "m %s %d", 5, args)))
        if (d["severity_number"], d["severity_text"]) != want: return f"a record of level {s['level']} has severity {d['severity_number']} {d['severity_text']}"
        if d["body"] != body: return f"record 'm %s %d' with arguments {args} has body {d['body']!r}"
    return None


def run_handler(s, base):
    from ekosis.logs.buffered_rotating_file_handler import BufferedRotatingFileHandler
    from ekosis.logs.otlp_formatter import OtlpFormatter
    f = os.path.join(base, "a.log")
    h = BufferedRotatingFileHandler(f, mode=s["mode"], buffer_size=s["buf"], max_bytes=s["max"], backup_count=500, delay=s["delay"])
    h.setFormatter(OtlpFormatter())
    want, free, cap, threads, pos = [], [], s["buf"], [], 0
    try:
        for i, op in enumerate(s["ops"]):
            before = len(want) + len(free)
            if op[0] == "log":
                lv, m = op[1], MSGS[op[2]]
                args = ()
                if op[3]: args, shown = (op[2],), f"{m.replace('%d', '')} 7{op[2]}"; m = m.replace("%d", "") + " 7%d"
                else: shown = m
                want.append((lv, shown, i))
                in_request(i % 3, lambda: h.handle(record(lv, m, i, args)))
                got, bad = lines(f)
                if bad: return bad
                rest = len(want) + len(free) - len(got)
                if rest and rest >= cap: return f"{rest} records are still buffered after op {i}, buffer size {cap}"
                if rest < 0: return f"{len(got)} records in the log after {len(want) + len(free)} were logged"
            elif op[0] == "flush":
                h.flush()
                bad = check_lines(f, want, True, free)
                if bad: return f"after flush (op {i}): {bad}"
            elif op[0] == "buf": h.set_buffer_size(op[1]); cap = op[1]
            elif op[0] == "race":
                name = f"race{i}"
                free.append(name)
                h.handle(record(20, f"before{i}", i)); want.append((20, f"before{i}", i))
                orig, t = h.rotating_file_handler.emit, []
                def emit(r):
                    orig(r)
                    if not t:
                        t.append(threading.Thread(target=lambda: h.handle(record(20, name, i)), daemon=True))
                        t[0].start(); t[0].join(0.01)
                h.rotating_file_handler.emit = emit
                try: h.flush()
                finally: h.rotating_file_handler.emit = orig
                if not t: h.handle(record(20, name, i))
                else: t[0].join(5)
                if t and t[0].is_alive(): return "a thread that logs during a flush is stuck"
            bad = check_lines(f, want, False, free)
            if bad: return f"after op {i}: {bad}"
        (h.close if s["end"] == "close" else h.flush)()
        bad = check_lines(f, want, True, free)
        if bad: return f"after {s['end']}: {bad}"
        return None
    except Exception as e:
        return env.escaped(e, "logging failed")
    finally:
        try: h.close()
        except Exception: pass
        h.rotating_file_handler.close()


def run_eco(s, base):
    from ekosis.logs import logger as M
    from ekosis.configuration.config_models import ConfigLogging, AppConfiguration
    class Private(logging.Logger):          # (a logger outside the manager is not told to forget its cached levels)
        def isEnabledFor(self, level): return level >= self.getEffectiveLevel()
    root = Private("private")
    mine = lambda bs: [b for b in bs if b.startswith("m") and b[1:].isdigit()]       # what the code logs itself is not looked at
    shim = types.ModuleType("logging"); shim.__dict__.update(logging.__dict__)
    shim.getLogger = lambda *a: root
    import io
    con = io.StringIO()
    fsys = types.SimpleNamespace(stdout=con)
    fcfg = types.SimpleNamespace(directory=base, base_file_name="", base_file_path="", buffer_size=s["buf"], max_size_in_bytes=10 ** 6, max_files=3)
    lcfg = types.SimpleNamespace(level=s["level"], console_only=s["to"] == "console", file_only=s["to"] == "file", file_logging=fcfg)
    acfg = types.SimpleNamespace(name="app", instance="i1", logging=lcfg)
    eco = object.__new__(M.EcoLogger)
    for k, v in list(vars(M.EcoLogger).items()):
        if isinstance(v, ConfigLogging): setattr(eco, k, lcfg)
        if isinstance(v, AppConfiguration): setattr(eco, k, acfg)
    saved = M.logging, M.sys
    M.logging, M.sys = shim, fsys
    f = os.path.join(base, "app-i1.log")
    try:
        eco.setup()
        cap, lvl, want, n = s["buf"], LEVELS.get(s["level"], 10), [], 0
        def bodies():
            if s["to"] == "console": return []
            got, bad = lines(f)
            return mine([json.loads(x)["body"] for x in got]) if not bad else [bad]
        for i, op in enumerate(s["ops"]):
            if op[0] == "log":
                root.log(op[1], f"m{i}")
                if op[1] >= lvl: want.append(f"m{i}")
            elif op[0] == "level":
                eco.set_level(op[1]); lvl = LEVELS.get(op[1], lvl)
            elif op[0] == "buf":
                eco.set_buffer_size(op[1]); cap = op[1]
            elif op[0] == "flush": eco.flush()
            got = bodies()
            if s["to"] != "console":
                if len(got) > len(want) or any(a != b for a, b in zip(want, got)): return f"log has {got}, logged {want}"
                if op[0] == "flush" and len(got) != len(want) or op[0] == "log" and op[1] >= lvl and 0 != len(want) - len(got) >= cap: return f"log has {got} after {op}, logged {want}, buffer size {cap}"
        eco.flush()
        if s["to"] != "console":
            got = bodies()
            if len(got) != len(want): return f"log has {got} at the end, logged {want}"
        if s["to"] != "file":
            out = mine([json.loads(x)["body"] for x in con.getvalue().split("\n")[:-1]])
            if len(out) != len(want) or any(a != b for a, b in zip(want, out)): return f"console has {out}, logged {want}"
        return None
    except Exception as e:
        return env.escaped(e, "logging failed")
    finally:
        M.logging, M.sys = saved
        for h in root.handlers:
            h.close()
            if hasattr(h, "rotating_file_handler"): h.rotating_file_handler.close()


def exhaustive(tier):
    for l in list(range(-1, 61)) + [99, 1000]: yield {"kind": "sev", "level": l}
    for to in ("both", "file", "console"):
        for level in list(LEVELS) + ["", "DEBUG", "x"]:
            yield {"kind": "eco", "to": to, "level": level, "buf": 0, "ops": [["log", l] for l in (5, 10, 20, 25, 30, 40, 50)]}
            yield {"kind": "eco", "to": to, "level": "info", "buf": 2, "ops": [["log", 30], ["level", level]] + [["log", l] for l in (10, 20, 30, 40, 50)] + [["buf", 4], ["log", 50], ["log", 50], ["flush"], ["log", 50]]}
    for mode in "aw":
        for buf in (0, 1, 2, 3):
            for k in range(6):
                for end in ("close", "flush"):
                    yield {"kind": "handler", "mode": mode, "buf": buf, "max": 0, "delay": False, "end": end, "ops": [["log", 20, 0, 0]] * k}
    for buf in (0, 2, 5):
        for mx in (0, 700):
            yield {"kind": "handler", "mode": "a", "buf": buf, "max": mx, "delay": False, "end": "close", "ops": [["log", 20, 0, 0], ["race"], ["log", 30, 1, 0], ["race"], ["log", 40, 3, 0]]}


def scenarios(rnd):
    while True:
        if rnd.random() < .25:
            yield {"kind": "eco", "to": rnd.choice(["both", "file", "file", "console"]), "level": rnd.choice(list(LEVELS)), "buf": rnd.choice([0, 0, 1, 3, 10]),
                   "ops": [rnd.choice([["log", rnd.choice([5, 10, 20, 30, 40, 50])], ["log", rnd.choice([10, 20, 30, 40, 50])], ["level", rnd.choice(list(LEVELS) + ["?"])], ["buf", rnd.randrange(5)], ["flush"]]) for _ in range(rnd.randrange(1, 25))]}
        else:
            ops = []
            for _ in range(rnd.randrange(1, 30)):
                r = rnd.random()
                ops.append(["log", rnd.choice([5, 10, 20, 30, 40, 50]), rnd.randrange(len(MSGS)), rnd.random() < .2] if r < .75 else ["flush"] if r < .85 else ["buf", rnd.randrange(6)] if r < .97 else ["race"])
            yield {"kind": "handler", "mode": rnd.choice("aaaw"), "buf": rnd.choice([0, 1, 2, 3, 5, 20]), "max": rnd.choice([0, 0, 400, 1000, 5000]), "delay": rnd.random() < .2, "end": rnd.choice(["close", "flush"]), "ops": ops}
