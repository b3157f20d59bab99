"""Run-time contract of the configuration: the real module loaded under arbitrary environments."""
import json, os, shutil, tempfile
from dv import env
from .config import load

NUM = {"STAT_GP": (("stats_keeper", "gather_period"), 300), "STAT_HL": (("stats_keeper", "history_length"), 12), "LOG_BUF_SIZE": (("logging", "file_logging", "buffer_size"), 0),
       "LOG_MAX_SIZE": (("logging", "file_logging", "max_size_in_bytes"), 10485760), "LOG_MAX_FILES": (("logging", "file_logging", "max_files"), 10)}
TXT = {"LOG_DIR": (("logging", "file_logging", "directory"), "dir"), "LOG_LEVEL": (("logging", "level"), "info"), "LOCK_DIR": (("lock_directory",), "dir"), "BUFFER_DIR": (("buffer_directory",), None)}
APPS = ["app", "App", "myCoolApp", "app_x", "extra", "a1"]
INSTS = ["0", "x", "feeds_cats", "X_Y", "0_1"]
OTHERS = [("other", "0"), ("app_x", "7"), ("ap", "p_0"), ("app", "9"), ("APP", "00")]


def snake(a): return "".join(("_" + c.lower() if c.isupper() and i else c.lower()) for i, c in enumerate(a))


def expected(app, inst, e):
    """The documented precedence over plain dictionaries; None when an error has to be reported."""
    A, I = snake(app).upper(), inst.upper()
    def pick(p, default, levels=(f"_{A}_{I}", f"_{A}", "")):
        for l in levels:
            if e.get(f"ECOENV_{p}{l}"): return e[f"ECOENV_{p}{l}"]
        return default
    out = {}
    d = pick("DEFAULT_DIR", "/tmp")
    for p, (path, df) in TXT.items(): out[path] = pick(p, d if df == "dir" else df)
    for p, (path, df) in NUM.items():
        try: out[path] = int(pick(p, df))
        except ValueError: return None
    out[("logging", "file_logging", "base_file_path")] = f"{out[('logging', 'file_logging', 'directory')]}/{snake(app)}-{inst}.log"
    for p in ("TCP", "UDP"):
        v = pick(p, None, (f"_{A}_{I}",))
        out[(p.lower(),)] = None
        if v:
            f = v.split(":")
            if len(f) != 2: return None
            if f[0] and f[1]:
                try: out[(p.lower(),)] = {"host": f[0], "port": int(f[1])}
                except ValueError: return None
    v = pick("UDS", None, (f"_{A}_{I}",))
    out[("uds",)] = None
    if v and os.path.dirname(v) and os.path.basename(v) and os.path.isdir(os.path.dirname(v)):
        b = os.path.basename(v)
        out[("uds",)] = {"directory": os.path.dirname(v), "socket_file_name": f"{snake(app)}_{inst}.uds.sock" if b == "DEFAULT" else b}
    x = {}
    pre = ["ECOENV_EXTRA_", f"ECOENV_EXTRA_{A}_", f"ECOENV_EXTRA_{A}_{I}_"]
    for k, v in e.items():
        l = [i for i in range(3) if k.startswith(pre[i])]
        if l:
            n = k[len(pre[l[-1]]):]
            if n not in x or x[n][0] < l[-1]: x[n] = (l[-1], v)
    out[("extra",)] = {n: v for n, (_, v) in x.items()}
    out[("name",)], out[("instance",)] = snake(app), inst
    return out


def run(s):
    e = {k: v for k, v in s["env"]}
    want = expected(s["app"], s["inst"], e)
    path = None
    try:
        f = s.get("file")
        if f is not None:
            path = os.path.join(env.scratch_dir("c"), "cfg.json")
            json.dump({"instances": {s["inst"]: f}}, open(path, "w"))
        try: m = load(s["app"], s["inst"], e, path)
        except (Exception, SystemExit) as ex:
            if want is None: return None
            return f"start fails with {ex!r} for {s}"
        c = m.AppConfiguration().dict()
        if want is None: return f"a value of the wrong form is not reported: {c} for {s}"
        if f is not None:
            def over(d, pre):
                for k, v in d.items():
                    if isinstance(v, dict) and pre + (k,) not in want: over(v, pre + (k,))
                    elif isinstance(v, dict) and isinstance(want[pre + (k,)], dict) and k != "extra": want[pre + (k,)] = {**want[pre + (k,)], **v}
                    else: want[pre + (k,)] = v
            over(f, ())
        for p, v in want.items():
            if f is not None and p[-1] == "base_file_path": continue
            g = c
            for k in p: g = g[k]
            if g != v or type(g) is not type(v): return f"{'.'.join(p)} is {g!r}, expected {v!r}, for {s}"
        return None
    except Exception as ex:
        return env.escaped(ex, s)
    finally:
        if path: shutil.rmtree(os.path.dirname(path), ignore_errors=True)


def names(app, inst, p):
    A, I = snake(app).upper(), inst.upper()
    own = [f"ECOENV_{p}", f"ECOENV_{p}_{A}", f"ECOENV_{p}_{A}_{I}"]
    other = [f"ECOENV_{p}_{a}_{i}".upper() for a, i in OTHERS] + [f"ECOENV_{p}_{I}", f"ECOENV_{p}_{A}_{I}_", f"ecoenv_{p}", f"ECOENV_{p}_{A}{I}", f"ECOENV_{p}_{A}_{I}_0", f"ECOENV_{p}_{snake(app)}_{inst}" if snake(app) != snake(app).upper() else f"ECOENV_{p}x"]
    return own, [o for o in other if o not in own]


def exhaustive(tier):
    for app, inst in (("app", "0"), ("myCoolApp", "feeds_cats")):
        for p in list(NUM) + list(TXT) + ["DEFAULT_DIR", "TCP", "UDP", "UDS"]:
            own, other = names(app, inst, p)
            vals = {"TCP": ["h1:1", "h2:2", "h3:3"], "UDP": ["h1:1", "h2:2", "h3:3"], "UDS": ["/tmp/a", "/a", "/tmp/DEFAULT"]}.get(p, ["7", "8", "9"])
            for mask in range(8):
                for empty in (0, 1, 2, 4) if mask else (0,):
                    ev = [(own[i], "" if empty >> i & 1 else vals[i]) for i in range(3) if mask >> i & 1] + [(o, vals[0] + "5") for o in other if p not in ("UDS",)]
                    yield {"app": app, "inst": inst, "env": ev}
            if p in NUM:
                for bad in ("x", "1.5", "", " 5 ", "5x", "-3", "1_0"): yield {"app": app, "inst": inst, "env": [(own[0], bad)]}
            if p in ("TCP", "UDP"):
                for bad in ("h", "h:", ":1", "h:x", "a:b:1", ":", "h:1 ", "h: 2"): yield {"app": app, "inst": inst, "env": [(own[2], bad)]}
            if p == "UDS":
                for v in ("x", "/nowhere_at_all/x", "/tmp/", "DEFAULT", "/DEFAULT"): yield {"app": app, "inst": inst, "env": [(own[2], v)]}


def scenarios(rnd):
    while True:
        app, inst = rnd.choice(APPS), rnd.choice(INSTS)
        A, I = snake(app).upper(), inst.upper()
        ev = {}
        for p in rnd.sample(list(NUM) + list(TXT) + ["DEFAULT_DIR", "TCP", "UDP", "UDS"], rnd.randint(0, 6)):
            own, other = names(app, inst, p)
            for k in rnd.sample(own, rnd.randint(0, 3)) + rnd.sample(other, 2):
                if p in ("TCP", "UDP"): ev[k] = rnd.choice(["h:1", "1.2.3.4:99", "h:", "x"] if rnd.random() < 0.3 else ["h:%d" % rnd.randrange(9999)])
                elif p == "UDS": ev[k] = rnd.choice(["/tmp/s.sock", "/tmp/DEFAULT", "/x/y", "s", ""])
                elif p in NUM: ev[k] = str(rnd.randrange(1000)) if rnd.random() < 0.9 else rnd.choice(["", "x", "0", "-1"])
                else: ev[k] = rnd.choice(["/a", "/b", "debug", "", "x y"])
        for _ in range(rnd.randint(0, 5)):
            ev[rnd.choice(["ECOENV_EXTRA_", f"ECOENV_EXTRA_{A}_", f"ECOENV_EXTRA_{A}_{I}_", f"ECOENV_EXTRA_{A}", "ECOENV_EXTRA_OTHER_0_", "XECOENV_EXTRA_", f"ECOENV_EXTRA_{A}_{I}"]) + rnd.choice(["DB", "X", "", A + "_Q", "ECOENV_EXTRA_", "a_b", I + "_Z", "ECOENV_EXTRA_B", f"A_ECOENV_EXTRA_{A}_B", f"ECOENV_EXTRA_{A}_{I}_C", f"X{A}_{I}_", "_ECOENV_EXTRA_", "Db", "dB", " s "])] = rnd.choice(["", "v", "w"])
        s = {"app": app, "inst": inst, "env": sorted(ev.items(), key=lambda _: rnd.random())}
        if rnd.random() < 0.3:
            f = {}
            if rnd.random() < 0.5: f["lock_directory"] = "/f"
            if rnd.random() < 0.5: f["stats_keeper"] = {rnd.choice(["gather_period", "history_length"]): 77}
            if rnd.random() < 0.4: f["tcp"] = {"host": "fh", "port": 5}
            if rnd.random() < 0.4: f["logging"] = {"level": "warn"}
            if rnd.random() < 0.3: f["extra"] = {"K": "V"}
            s["file"] = f
        yield s
