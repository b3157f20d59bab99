"""Tries source changes on a scratch copy of /repo: tools/mut.py FILE.py [filter]; FILE.py defines M = [(name, path, old, new, [props])]."""
import os, subprocess, sys, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
for name, path, old, new, props in ns["M"]:
    if flt and flt not in name: continue
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "*.egg-info"))
        p = f"{d}/r/{path}"
        s = open(p).read()
        if s.count(old) < 1: print("!!", name, "pattern not found"); continue
        open(p, "w").write(s.replace(old, new, 1) if not isinstance(new, tuple) else s.replace(old, new[0]))
        for pr in props:
            e = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVID=d + "/e")
            r = subprocess.run([V + "/check.py", pr], capture_output=True, text=True, env=e, cwd=V)
            out = r.stdout.splitlines()
            ev = json.load(open(f"{d}/e/{pr}.json")) if os.path.exists(f"{d}/e/{pr}.json") else {"coverage": {}}
            c = ev["coverage"]
            print(f"== {name} {pr} rc={r.returncode} A={c.get('discharged')}/{c.get('obligations')} verdict={c.get('verdict', '?')[:20]} wall={ev.get('wall_s')}")
            for l in out:
                if l.startswith("#") or l.startswith("VIOL"): print("     ", l[:260])
            if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)
