"""Tests of the verifier itself: correct bodies have to be proved, deliberately wrong ones refuted (never proved), and contracts
whose precondition cannot be met must not count as proved.   tools/selftest.py"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import env
env.bootstrap()
env.REPO = os.path.dirname(os.path.abspath(__file__))      # the functions under test are the ones below
import z3
from dv.core import *
from dv.interp import Interp
from dv.runner import Task, run_task


def count_ok(n):
    i = 0
    while i < n:
        i += 1
    return i
def count_bad(n):
    i = 0
    while i < n:
        i += 1
    return i - 1
def clamp_ok(n): return 0 if n < 0 else n
def clamp_bad(n): return 0 if n < -1 else n
def sum_ok(l):
    t = 0
    for x in l: t += 3
    return t
def sum_bad(l):
    t = 1
    for x in l:
        t += 3
        if t == 1000: break
    return t
def filt_ok(l):
    out = []
    for x in l: out.append(x)
    return out
def filt_bad(l):
    out = []
    for x in l:
        if x != 7: out.append(x)
    return out
def fin_ok(f, log):
    try: return f()
    finally: log.append(1)
def fin_bad(f, log):
    try:
        r = f()
        log.append(1)
        return r
    except ValueError: log.append(1); raise
def div_bad(n): return 1 // n
def nested_ok(l):
    t = 0
    for x in l:
        for y in (1, 2): t += y
    return t
def nested_bad(l):
    t = 0
    for x in l:
        for y in (1, 2):
            if x == 5: continue
            t += y
    return t


def run(ctx, f, *a):
    it = Interp(ctx)
    try: return it, "ok", it.call(f, list(a), {})
    except PyExc as e: return it, "raise", e.val
def integer(ctx, pre, post):
    def go(f):
        def t(ctx):
            n = ctx.fresh_int("n")
            ctx.assume(pre(n))
            it, how, r = run(ctx, f, SInt(n))
            ctx.oblige("post", post(n, it.z(r)) if how == "ok" else False)
        return t
    return go
def sequence(post):
    def go(f):
        def t(ctx):
            n, at = ctx.fresh_int("length"), z3.Function("element", I, I)
            ctx.assume(n >= 0)
            it, how, r = run(ctx, f, MList(ctx, None, n, lambda i: SInt(at(i))))
            post(ctx, it, n, at, r)
        return t
    return go
def total(k):
    def p(ctx, it, n, at, r): ctx.oblige("post", it.z(r) == k * n)
    return p
def same(ctx, it, n, at, r):
    from dv import methods
    ln = it.z(methods.seq_len(it, r))
    ctx.oblige("length", ln == n)
    i = ctx.fresh_int("i"); ctx.assume(z3.And(i >= 0, i < n, i < ln))
    ctx.oblige("element", it.z(r.get(i)) == at(i) if r.symbolic else z3.BoolVal(False))
def final(f):
    def t(ctx):
        from dv.interp import ModelFn
        log = MList(ctx, [])
        def body(it, *a):
            c = ctx.choose_n(3, "outcome")
            if c: it.raise_py([ValueError, KeyError][c - 1], "x")
            return 1
        it, how, r = run(ctx, f, ModelFn(body, "f"), log)
        ctx.oblige("logged once", len(log.items) == 1)
    return t


I1 = integer(None, lambda n: n >= 0, lambda n, r: r >= n)
CASES = [("count", I1(count_ok), "proved"), ("count", I1(count_bad), "not"),
         ("clamp", integer(None, lambda n: z3.BoolVal(True), lambda n, r: z3.And(r >= 0, z3.Or(r == n, n < 0)))(clamp_ok), "proved"),
         ("clamp", integer(None, lambda n: z3.BoolVal(True), lambda n, r: z3.And(r >= 0, z3.Or(r == n, n < 0)))(clamp_bad), "refuted"),
         ("division by zero", integer(None, lambda n: n >= 0, lambda n, r: r >= 0)(div_bad), "not"),
         ("sum", sequence(total(3))(sum_ok), "proved"), ("sum", sequence(total(3))(sum_bad), "not"),
         ("copy", sequence(same)(filt_ok), "proved"), ("copy", sequence(same)(filt_bad), "not"),
         ("nested", sequence(total(3))(nested_ok), "proved"), ("nested", sequence(total(3))(nested_bad), "not"),
         ("finally", final(fin_ok), "proved"), ("finally", final(fin_bad), "refuted"),
         ("unsatisfiable precondition", integer(None, lambda n: z3.And(n > 3, n < 2), lambda n, r: r == 99)(clamp_ok), "not"),
         ("no obligation", lambda ctx: None, "not")]


def main():
    bad = 0
    for name, t, want in CASES:
        r = run_task(Task(name, t, timeout=60))
        st = [o["status"] for o in r["obligations"]]
        got = "refuted" if "refuted" in st else "proved" if not r["unsupported"] and st and set(st) == {"discharged"} else "not"
        ok = got == want or want == "not" and got == "refuted"
        bad += not ok
        print("ok  " if ok else "FAIL", name, got, st, r["unsupported"][:1])
    return 1 if bad else 0


sys.exit(main())
