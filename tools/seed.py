"""Plants bugs: tools/seed.py FILE.py [filter]. FILE.py defines S = [dict(id, prop, edits=[(path, old, new)], needs, breaks, demo)].
Each is kept in seeded/<id>/ only when it applies to /repo's HEAD, changes original lines, passes the stable tests, and its demo
exits 0 on the unchanged tree and nonzero with the patch. Tests run one at a time (fixed ports)."""
import os, subprocess, sys, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "6080b97"
PRE = '''import os, sys, tempfile, shutil, atexit, logging
_d = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, _d, ignore_errors=True)
for _v in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR"): os.environ["ECOENV_" + _v] = _d
os.environ["ECOENV_LOG_LEVEL"] = "critical"
sys.argv = ["demo_app.py", "-i", "0", "-lfo"]
sys.path.insert(0, os.getcwd())
import ekosis
assert os.path.abspath(list(ekosis.__path__)[0]).startswith(os.getcwd() + os.sep), ekosis.__path__
logging.getLogger().setLevel(logging.CRITICAL)
'''
SH = '''#!/bin/bash
# exits 0 when the property holds on the demonstrated input
exec timeout 120 /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in ns["S"]:
        if flt and flt not in s["id"]: continue
        d = tempfile.mkdtemp(prefix="seed_")
        try:
            r = d + "/r"
            shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
            bad = None
            for path, old, new in s["edits"]:
                t = open(f"{r}/{path}").read()
                if t.count(old) != 1: bad = f"pattern occurs {t.count(old)} times in {path}"; break
                open(f"{r}/{path}", "w").write(t.replace(old, new))
            if bad: print("!!", s["id"], bad); continue
            patch = sh("git", "-C", r, "diff").stdout
            if not original(r): print("!!", s["id"], "does not change an original line"); continue
            o = f"{d}/demo"
            os.makedirs(o)
            open(o + "/demo.py", "w").write(PRE + s["demo"])
            open(o + "/demo.sh", "w").write(SH)
            os.chmod(o + "/demo.sh", 0o755)
            a = sh("bash", o + "/demo.sh", cwd="/repo")
            b = sh("bash", o + "/demo.sh", cwd=r)
            if a.returncode != 0: print("!!", s["id"], "demo fails on the unchanged tree", a.stdout[-400:], a.stderr[-800:]); continue
            if b.returncode == 0: print("!!", s["id"], "demo passes with the change", b.stdout[-400:]); continue
            if not os.environ.get("NOTEST"):
                open(d + "/p.diff", "w").write(patch)
                assert sh("git", "-C", "/repo", "status", "--short").stdout == ""
                x = sh("git", "-C", "/repo", "apply", d + "/p.diff")
                try:
                    assert x.returncode == 0, x.stderr
                    sh("bash", "/opt/vp/build.sh")
                    sh("bash", "/opt/vp/test.sh", d + "/o.json")
                finally: sh("git", "-C", "/repo", "checkout", "--", ".")
                res = json.load(open(d + "/o.json"))
                missing = [t for t in stable(base) if t not in set(res["passed"])]
                if missing: print("!!", s["id"], "tests fail:", missing[:4]); continue
            q = f"{V}/seeded/{s['id']}"
            shutil.rmtree(q, ignore_errors=True)
            shutil.copytree(o, q)
            open(q + "/patch.diff", "w").write(patch)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(q + "/meta.json", "w"), indent=1)
            print("ok", s["id"], (b.stderr or b.stdout).strip().splitlines()[-1:], flush=True)
        finally:
            shutil.rmtree(d)


def stable(b):
    for k in ("passed", "stable", "tests"):
        if k in b: return b[k]
    return b if isinstance(b, list) else []


def original(r):
    """Some removed line stems from the original repository."""
    import re
    diff = sh("git", "-C", r, "diff", "-U0").stdout
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            n, c = int(m[1]), int(m[2] or 1)
            if c:
                for bl in sh("git", "-C", r, "blame", "-s", "-L", f"{n},{n + c - 1}", "HEAD", "--", f).stdout.splitlines():
                    if bl.startswith("^"): return True
    return False


main()
