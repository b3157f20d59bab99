#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only TASK] [-v] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    a = sys.argv[1:]
    def opt(n, d=None):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
        return d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    only, rep = opt("--only"), opt("--replay")
    v = "-v" in a
    a = [x for x in a if x != "-v"]
    from dv import runner
    if rep: return runner.replay(a[0], rep)
    return runner.check(a[0], tier, only, v)
if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
