"""Loops: invariants are inferred (closed forms, search forms) or taken from the specification's
templates, then used at a cut point: establish, havoc, assume, run one arbitrary iteration, and
continue after the loop from an arbitrary state satisfying the invariant."""
import ast
import z3
from .core import *
from .core import _MISSING
from .interp import (FRAME_SEQ, ReturnSig, BreakSig, ContinueSig, Frame, is_plain, PLAIN)
from . import methods
from .methods import ite, subst, terms_of, symbols, forall_range, to_list


class LoopSpec:
    """Specification hooks for loops.

    templates : functions (it, k, value, location) -> z3 Bool / None, candidate invariants for
                every location the loop modifies (kept when established and preserved)
    on_head(it, frame, k), on_back(it, frame, k): per-iteration contract hooks"""
    def __init__(self, templates=(), on_head=None, on_back=None, havoc=None, unroll=None, on_exit=None, exact=False, body_paths=64, closed=None, declared=()):
        self.closed = closed      # closed(it, loc, k, outs) -> Closed or None
        self.declared = declared  # (ext, field): ghost state whose closed form is known before the loop is looked at (nested loops)
        self.exact, self.body_paths = exact, body_paths
        self.again = not (on_head or on_back)
        self.templates, self.on_head, self.on_back, self.havoc, self.unroll, self.on_exit = list(templates) + [is_counter], on_head, on_back, havoc, unroll, on_exit


class Closed:
    """Closed form of a location given by the specification: at(K) is its value at the head of
    iteration K, same(it, actual, K) the formula that `actual` is that value.  Checked inductively."""
    def __init__(self, at, same): self.at, self.same = at, same


DEBUG = False
NORMAL, BREAK, RETURN, RAISE = "normal", "break", "return", "raise"


def run_for(it, s, fr):
    if isinstance(s, ast.AsyncFor): raise Unsupported("async for")
    seqv = it.ev(s.iter, fr)
    if isinstance(seqv, range) or isinstance(seqv, MList) and not seqv.symbolic and isinstance(s.iter, (ast.Name, ast.Attribute)):
        seq = to_list(it, seqv)
    else:
        seq = to_list(it, seqv)
    if not seq.symbolic:
        for x in list(seq.items):
            it.assign(s.target, x, fr)
            try:
                it.block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        it.block(s.orelse, fr)
        return
    def body(k):
        it.assign(s.target, seq.get(k), fr)
        it.block(s.body, fr)
    it.loop_seqs.append(seqv)
    try: symbolic_loop(it, s, fr, body, n=seq.n)
    finally: it.loop_seqs.pop()


def run_while(it, s, fr):
    # try concrete unrolling while the condition is concrete
    const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
    spec = it.loop_spec
    steps = 0
    while not const_true and not (spec is not None):
        c = it.ev(s.test, fr)
        if isinstance(c, (SBool, SInt, SVal)) or isinstance(c, MList) and c.symbolic:
            break
        if not it.truth(c):
            it.block(s.orelse, fr); return
        steps += 1
        if steps > 200: raise Unsupported("while loop does not end")
        try:
            it.block(s.body, fr)
        except BreakSig:
            return
        except ContinueSig:
            continue
    symbolic_loop(it, s, fr, lambda k: it.block(s.body, fr), n=None, cond=(None if const_true else lambda: it.truth(it.ev(s.test, fr))))


# ---------------------------------------------------------------- the cut
class Loc:
    """A location a loop modifies."""
    def __init__(self, kind, obj, name, container):
        self.kind, self.obj, self.name, self.container = kind, obj, name, container
    def key(self): return (self.kind, id(self.obj), self.name)
    def read(self):
        if self.kind == "state": return self.obj
        if self.kind == "ext": return self.obj.st.get(self.name, _MISSING)
        return self.container.get(self.name, _MISSING)
    def value(self): return self.obj if self.kind == "state" else self.read()
    def write(self, it, v):
        if self.kind == "ext": self.obj.set(self.name, v)
        elif v is _MISSING:
            if self.name in self.container: it.ctx.deld(self.container, self.name, owner=self.obj)
        else: it.ctx.setd(self.container, self.name, v, owner=self.obj)
    def __repr__(self): return f"{self.kind}:{self.name}"


def journal_locs(ctx, mark, ident_mark, seq_mark):
    out = {}
    for loc, old in ctx.journal[mark:]:
        if loc[0] == "dict":
            _, d, name, owner = loc
            if isinstance(owner, Obj) and owner.ident > ident_mark: continue
            if isinstance(owner, Frame) and owner.seq > seq_mark: continue
            l = Loc("dict", owner if owner is not None else d, name, d)
            l.obj = owner if owner is not None else d
            out.setdefault(("dict", id(d), name), l)
        elif loc[0] == "state":
            o = loc[1]
            if o.ident > ident_mark: continue
            out.setdefault(("state", id(o), None), Loc("state", o, None, None))
        elif loc[0] == "ext":
            o = loc[1]
            if o.ident > ident_mark: continue
            out.setdefault(("ext", id(o), loc[2]), Loc("ext", o, loc[2], None))
    return out


class IterOut:
    pass


def run_body(it, body, k, locs=None):
    """One iteration; returns (outcome kind, payload)."""
    try:
        body(k)
        return NORMAL, None
    except ContinueSig:
        return NORMAL, None
    except BreakSig:
        return BREAK, None
    except ReturnSig as r:
        return RETURN, r.v
    except PyExc as e:
        return RAISE, e.val


def symbolic_loop(it, s, fr, body, n=None, cond=None):
    ctx, run, spec = it.ctx, it.ctx.run, it.loop_spec or LoopSpec()
    run.loops_inferred += 1
    ident0, seq0 = ctx.idents, next(FRAME_SEQ)

    def one(k, state_setup):
        """Generic iteration at index k; returns observations."""
        def go():
            state_setup()
            jm = len(ctx.journal)
            om = len(ctx.oplog)
            if n is not None: ctx.assume(z3.And(k >= 0, k < n))
            else: ctx.assume(k >= 0)
            if cond is not None and not cond(): raise PathEnd()
            pcm = len(ctx.assumptions)
            kind, payload = run_body(it, body, k)
            o = IterOut()
            o.kind, o.payload = kind, payload
            o.locs = journal_locs(ctx, jm, ident0, seq0)
            o.ops = [tuple(snap(it, y, ident0) for y in x) for x in ctx.oplog[om:] if getattr(x[0], "ident", 0) <= ident0]
            o.after = {key: l.read() for key, l in o.locs.items() if l.kind != "state"}
            o.pc = list(ctx.assumptions[pcm:])
            del ctx.oplog[om:]
            return o
        return [o for o, _ in loop_explore(go)]

    def loop_explore(go):
        it.loop_quiet += 1
        try: return ctx.sub_explore(go, spec.body_paths)
        finally: it.loop_quiet -= 1

    # Inside the exploration of enclosing loops only: the same iteration, with the same forms, is run again with every
    # check when the enclosing loops are cut, so that what is only checked (and not used) can be left to that run.
    again = spec.exact and spec.again and ctx.quiet > 0 and ctx.quiet == it.loop_quiet

    k = ctx.fresh_int("k")
    locs, forms, outs, given_forms = {}, {}, [], {}
    ckey = (id(s), tuple(ctx.taken)) if spec.exact and ctx.nested is None else None
    cached = run.loop_cache.get(ckey) if ckey else None
    if cached is not None:
        for (kind, ref, name, form) in cached[0]:
            l = deref(it, kind, ref, name)
            if form and form[0] == "fn":       # proved before; of this path's own state
                c = spec.closed(it, l, k, [])
                if c is None: raise Unsupported("loop form changed")
                form = ("fn", c)
            locs[loc_key(l)] = l; forms[loc_key(l)] = form
    elif spec.exact:
        # the loop's contract quantifies over an arbitrary iteration: every modified location is
        # havocked unless each iteration puts back the value it had
        for o, name in spec.declared:
            l = Loc("ext", o, name, None)
            c = spec.closed(it, l, k, [])
            if c is not None: locs[loc_key(l)] = l; forms[loc_key(l)] = ("fn", c)
        # a first guess: what was found on another path (checked below like any other)
        for name, form in run.loop_warm.get(id(s), {}).items():
            l = Loc("dict", fr, name, fr.locals)
            if form[0] == "same" and l.read() is _MISSING: continue
            locs[loc_key(l)] = l; forms[loc_key(l)] = form
        for rnd in range(8):
            def setup():
                for key, l in locs.items(): apply_form(it, l, forms.get(key), k, None)
            outs = one(k, setup)
            new, f2 = False, dict(forms)
            for o in outs:
                for key, l in o.locs.items():
                    if key not in locs: locs[key] = l; f2[key] = ("same",); new = True
            normal = [o for o in outs if o.kind == NORMAL]
            for key, l in locs.items():
                if l.kind == "state":
                    g = infer_state(it, l, normal, k, exact=True)
                    if f2[key] == ("same",) or g[0] == "havoc": f2[key] = g
                    elif f2[key][0] == "entries" and g[0] == "entries":
                        old, new_ = dict(f2[key][1]), dict(g[1])
                        for ek, hk in new_.items(): old[ek] = hk if old.get(ek, hk) == hk else ("poison",)
                        f2[key] = ("entries", tuple(old.items()))
                    continue
                if f2[key][0] == "fn": continue
                c = spec.closed(it, l, k, outs) if spec.closed else None
                if c is not None:
                    f2[key] = ("fn", c)
                    continue
                init = l.read()
                vals = [o.after[key] for o in normal if key in o.locs]
                if f2[key] == ("same",) and all(v is init or isinstance(v, PLAIN) and isinstance(init, PLAIN) and type(v) is type(init) and v == init
                                                or same_value(v, init) for v in vals): continue
                h = ("havoc", ("poison",) if init is _MISSING else havoc_of(it, init, vals))
                if f2[key][0] == "havoc" and h[1] != f2[key][1]: h = ("havoc", ("poison",)) if f2[key][1][0] != "poison" and h[1][0] != f2[key][1][0] else f2[key]
                f2[key] = h
            stable = not new and all(forms.get(x) == f2[x] for x in f2)
            forms = f2
            if stable: break
        else:
            raise Unsupported("no stable loop form")
        run.loop_warm[id(s)] = {l.name: forms[key] for key, l in locs.items() if l.kind == "dict" and l.container is fr.locals and forms.get(key, ("",))[0] in ("same", "havoc")}
    else:
        # ---- 1. which locations does an iteration modify
        for rnd in range(6):
            def setup(forms=forms):
                for key, l in locs.items():
                    apply_form(it, l, forms.get(key), k, None)
            try:
                outs = one(k, setup)
            except Unsupported:
                if spec.unroll: return unroll(it, s, fr, body, n, cond, spec.unroll)
                raise
            new = {}
            for o in outs:
                for key, l in o.locs.items():
                    if key not in locs: new[key] = l
            if not new and rnd > 0: break
            locs.update(new)
            forms = infer(it, locs, outs, k, n, forms, given_forms)
            if not new: break
        else:
            raise Unsupported("loop modifies an unbounded set of locations")

        # ---- 2. refine closed forms until they reproduce themselves
        for rnd in range(8):
            def setup():
                for key, l in locs.items(): apply_form(it, l, forms.get(key), k, None)
            outs = one(k, setup)
            f2 = infer(it, locs, outs, k, n, forms, given_forms)
            bad = [key for key in locs if not (rnd >= 3 and (forms.get(key) or (None,))[0] == 'havoc') and not same_form(forms.get(key), f2.get(key))]
            if not bad: break
            if DEBUG: print("ROUND", rnd, [(locs[key], forms.get(key), f2.get(key)) for key in bad])
            for key in bad:
                a, b = forms.get(key), f2.get(key)
                # weaken: a form that does not reproduce itself is replaced by the newly inferred
                # one once, and dropped to plain havoc after that
                if rnd < 3: forms[key] = b
                else: forms[key] = ("havoc", havoc_kind(it, locs[key], outs, key))
        else:
            raise Unsupported("no stable loop form")
            # dependence check: forms may only mention k, outer symbols and other closed forms
        init_k = z3.IntVal(0)

    given = [] if cached is not None or again else [key for key in locs if (forms.get(key) or ("",))[0] == "fn"]
    for key in given:
        c = forms[key][1].same(it, locs[key].read(), z3.IntVal(0))
        if c is not True and (c is False or not ctx.prove_quick(c, 4000)): raise Unsupported(f"loop form of {locs[key]} does not hold at the start")
    if given:
        def inductive():
            for key, l in locs.items(): apply_form(it, l, forms.get(key), k, None)
            if n is not None: ctx.assume(z3.And(k >= 0, k < n))
            else: ctx.assume(k >= 0)
            if cond is not None and not cond(): raise PathEnd()
            if run_body(it, body, k)[0] != NORMAL: return
            for key in given:
                c = forms[key][1].same(it, locs[key].read(), z3.simplify(k + 1))
                if c is not True and (c is False or not ctx.prove_quick(c, 6000)): raise Unsupported(f"loop form of {locs[key]} is not inductive")
        loop_explore(inductive)

    init_k = z3.IntVal(0)

    # ---- 3. template invariants (Houdini)
    cands = []
    if cached is not None:
        keys = list(locs)
        cands = [(keys[i], spec.templates[j]) for i, j in cached[1]]
    elif spec.templates:
        for key, l in locs.items():
            f = forms.get(key)
            if f is None or f[0] not in ("havoc", "entries"): continue
            init = l.value()
            for t in spec.templates:
                c0 = t(it, init_k, init, l)
                if c0 is None: continue
                if c0 is True or (not isinstance(c0, bool) and ctx.prove_quick(c0)): cands.append((key, t))
        while cands:
            def setup():
                for key, l in locs.items(): apply_form(it, l, forms.get(key), k, None)
                for key, t in cands:
                    c = t(it, k, locs[key].value(), locs[key])
                    if c is not None: ctx.assume(c)
            dropped = []
            def go():
                setup()
                if n is not None: ctx.assume(z3.And(k >= 0, k < n))
                else: ctx.assume(k >= 0)
                if cond is not None and not cond(): raise PathEnd()
                kind, _ = run_body(it, body, k)
                if kind != NORMAL: return None
                for c in cands:
                    key, t = c
                    cc = t(it, z3.simplify(k + 1), locs[key].value(), locs[key])
                    if cc is None or cc is False or (cc is not True and not ctx.prove_quick(cc, 4000)):
                        dropped.append(c)
            loop_explore(go)
            if not dropped: break
            cands = [c for c in cands if c not in dropped]

    if ckey and cached is None:
        refs = [enref(it, l) for l in locs.values()]
        if all(r is not None for r in refs):
            keys = list(locs)
            run.loop_cache[ckey] = ([(l.kind, r, l.name, forms.get(key)) for (key, l), r in zip(locs.items(), refs)],
                                    [(keys.index(key), spec.templates.index(t)) for key, t in cands])

    # ---- 4. facts about completed iterations: none of them left the loop
    exits = any(o.kind != NORMAL for o in outs)
    cont = None
    if exits:
        clean = True
        ok_syms = None
        dis = []
        for o in outs:
            if o.kind == NORMAL: dis.append(z3.And(*o.pc) if o.pc else z3.BoolVal(True))
        bodyc = z3.Or(*dis) if dis else z3.BoolVal(False)
        fresh = {x for x in symbols(bodyc) if is_fresh_after(x, k)} - {k.decl().name()}
        if not fresh and not has_havoc(forms): cont = bodyc

    # ---- 5. cut: an arbitrary iteration / the exit
    K = ctx.fresh_int("K")
    for key, l in locs.items(): apply_form(it, l, forms.get(key), K, ctx, k=k, n=n)
    if not spec.exact and any((forms.get(key) or ('',))[0] in ('havoc', 'probe') and not local_temp(it, locs[key], fr, s) for key in locs): ctx.approx = True
    ctx.assume(K >= 0)
    if n is not None: ctx.assume(K <= n)
    for key, t in cands:
        c = t(it, K, locs[key].value(), locs[key])
        if c is not None and c is not True: ctx.assume(c)
    if cont is not None:
        ctx.assume(forall_range(ctx, z3.IntVal(0), K, lambda j: z3.substitute(cont, (k, j))))
    before = {key: l.read() for key, l in locs.items() if l.kind != "state"}
    if spec.on_head: spec.on_head(it, fr, K)
    go_in = True
    if again and cached is None and outs and all(o.kind == NORMAL for o in outs) and n is not None: go_in = False
    elif n is not None:
        go_in = ctx.branch(K < n)
    elif cond is not None:
        go_in = cond()
    if not go_in:
        if n is not None: ctx.assume(K == n)
        if spec.on_exit: spec.on_exit(it, fr, K)
        it.block(s.orelse, fr)
        return
    jm = len(ctx.journal)
    try:
        body(K)
    except ContinueSig:
        pass
    except BreakSig:
        return
    if spec.exact:
        for key, l in journal_locs(ctx, jm, ident0, seq0).items():
            if key not in locs: raise Unsupported(f"loop modifies {l} outside its modifies clause")
            if forms.get(key) == ("same",) and l.kind != "state" and not (l.read() is before.get(key) or same_value(l.read(), before.get(key)) or isinstance(l.read(), PLAIN) and l.read() == before.get(key)):
                raise Unsupported(f"loop does not restore {l}")
    if spec.on_back: spec.on_back(it, fr, K)
    raise PathEnd()


def is_counter(it, k, v, loc):
    """Default candidate: an index variable counts the iterations."""
    if isinstance(v, bool) or not isinstance(v, (int, SInt)): return None
    return (v.z if isinstance(v, SInt) else z3.IntVal(v)) == k


def loc_key(l): return ("dict", id(l.container), l.name) if l.kind == "dict" else (l.kind, id(l.obj), l.name)


def enref(it, l):
    """Path-independent name of a location (paths with the same decisions build the same objects)."""
    o = l.obj
    if l.kind in ("state", "ext"): return ("id", o.ident)
    if isinstance(o, Obj): return ("id", o.ident) if l.container is o.fields else None
    if isinstance(o, Frame): return ("frame", o.num) if hasattr(o, "num") and l.container is o.locals else None
    if l.container is it.ctxvars: return ("ctxvars",)
    if l.container is it.ctx.overlay: return ("overlay",)
    return None


def deref(it, kind, ref, name):
    if ref[0] == "id":
        o = it.ctx.heap[ref[1]]
        return Loc(kind, o, name, o.fields if kind == "dict" else None)
    if ref[0] == "frame":
        f = it.ctx.frames[ref[1]]
        return Loc(kind, f, name, f.locals)
    d = it.ctxvars if ref[0] == "ctxvars" else it.ctx.overlay
    return Loc(kind, d, name, d)


def local_temp(it, l, fr, s):
    """A local that every iteration assigns before reading (its unknown value at the head is harmless
    unless it is read, which Poison reports)."""
    return l.kind == "dict" and l.read() is _MISSING or isinstance(l.read() if l.kind != "state" else None, Poison)


def unroll(it, s, fr, body, n, cond, times):
    it.ctx.run.notes.add(f"loop unrolled {times} times")
    raise Unsupported("unroll")


def is_fresh_after(name, k):
    """Is the symbol younger than the loop index symbol k?"""
    def num(x):
        try: return int(x.rsplit("!", 1)[1])
        except Exception: return -1
    return num(name) > num(k.decl().name())


def has_havoc(forms):
    return False


# ---------------------------------------------------------------- closed forms
def infer(it, locs, outs, k, n, cur=(), given=None):
    cur = dict(cur)
    """Form of every modified location at the head of iteration k:
      ("lin", s0, c)        s0 + c*k
      ("last", s0, v)       v(k-1) for k > 0, s0 for k = 0            (overwritten every iteration)
      ("cond", s0, P, E)    E(j) of the last j < k with P(j), else s0
      ("append", v)         k elements v(0..k-1) appended
      ("dictset", key, v)   k assignments
      ("havoc", kind)"""
    ctx = it.ctx
    forms = {}
    normal = [o for o in outs if o.kind == NORMAL]
    sp = it.loop_spec
    for key, l in locs.items():
        if l.kind == "state":
            forms[key] = infer_state(it, l, normal, k)
            continue
        if sp is not None and sp.closed is not None:
            if key not in given: given[key] = sp.closed(it, l, k, normal)
            if given[key] is not None:
                forms[key] = ("fn", given[key]); continue
        init = l.read()
        if not normal:
            forms[key] = ("same",)
            continue
        # what the location holds at the head of iteration k in the current setup is unknown here;
        # recover it from paths that leave it unchanged, or by symbol name
        afters = []
        for o in normal:
            afters.append((o, o.after[key] if key in o.locs else _MISSING))
        c = cur.get(key)
        if c is not None and c[0] == "last" and all(a is not _MISSING and clean(a, k) for _, a in afters):
            # the head holds v(k-1): the form is inductive if the iteration leaves v(k)
            try:
                f = ("last", c[1], merge(it, afters))
                forms[key] = f
                if same_form(c, f): continue
            except Unsupported: pass
        forms[key] = infer_scalar(it, l, key, init, afters, outs, k)
    return forms


def clean(v, k, extra=()):
    """No symbols created inside the iteration."""
    for t in terms_of(v):
        for nme in symbols(t):
            if is_fresh_after(nme, k) and nme not in extra: return False
    if contains_heap(v): return False
    return True


def snap(it, v, ident0):
    """Frozen copy of a dict made in this iteration, as it is at the iteration's end."""
    if isinstance(v, MDict) and v.ident > ident0 and not v.symbolic and not v.frozen:
        d = MDict(it.ctx, {k: snap(it, x, ident0) for k, x in v.d.items()})
        d.frozen = True
        return d
    return v


def contains_heap(v):
    if isinstance(v, MDict) and v.frozen: return any(contains_heap(x) for x in v.d.values())
    if isinstance(v, (MList, MDict, MSet)): return True
    if isinstance(v, tuple): return any(contains_heap(x) for x in v)
    if isinstance(v, Obj): return any(contains_heap(x) for x in v.fields.values())
    return False


def pcz(o): return z3.And(*o.pc) if o.pc else z3.BoolVal(True)


def infer_scalar(it, l, key, init, afters, outs, k):
    ctx = it.ctx
    head = it.ctx.memo.get(("head", key))
    vals = [a for _, a in afters]
    # linear counter
    if isinstance(init, (int, SInt)) and not isinstance(init, bool) and all(isinstance(a, (int, SInt)) and not isinstance(a, bool) for a in vals):
        if head is not None and isinstance(head, SInt):
            ds = [z3.simplify(it.z(a) - head.z) for a in vals]
            if all(z3.is_int_value(d) for d in ds) and len({d.as_long() for d in ds}) == 1:
                return ("lin", init, ds[0].as_long())
            if all(not is_mention(a, head) for a in vals) and all(clean(a, k) for a in vals):
                return ("last", init, merge(it, afters))
            # conditional overwrite
            r = cond_form(it, init, head, afters, k)
            if r: return r
        else:
            return ("probe", init)
        return ("havoc", ("int",))
    if head is None: return ("probe", init)
    if all(a is not _MISSING and not is_mention(a, head) and clean(a, k) for a in vals):
        try:
            return ("last", init, merge(it, afters))
        except Unsupported:
            pass
    r = cond_form(it, init, head, afters, k)
    if r: return r
    return ("havoc", havoc_of(it, init, vals))


def cond_form(it, init, head, afters, k):
    upd = [(o, a) for o, a in afters if not same_value(a, head) and a is not _MISSING]
    if not upd or len(upd) == len(afters): return None
    for o, a in upd:
        if is_mention(a, head) or not clean(a, k): return None
    for o, _ in afters:
        for c in o.pc:
            if any(is_fresh_after(x, k) for x in symbols(c)): return None
            for h in terms_of(head):
                if mentions(c, h): return None
    P = z3.Or(*[pcz(o) for o, _ in upd])
    E = upd[-1][1]
    try:
        for o, a in upd[:-1]: E = ite(it, pcz(o), a, E)
    except Unsupported:
        return None
    return ("cond", init, P, E)


def mentions(t, h):
    hs = symbols(h)
    return bool(hs & symbols(t))


def is_mention(a, head):
    hs = set()
    for t in terms_of(head): hs |= symbols(t)
    for t in terms_of(a):
        if hs & symbols(t): return True
    return a is head and bool(hs)


def same_value(a, b):
    if a is b: return True
    if type(a) is type(b) and isinstance(a, (SInt, SBool, SVal)): return a.z.eq(b.z)
    return False


def merge(it, afters):
    r = afters[-1][1]
    for o, a in afters[:-1]: r = ite(it, pcz(o), a, r)
    return r


def havoc_of(it, init, vals):
    """Kind of an arbitrary value of the same type."""
    vs = [v for v in [init] + list(vals) if v is not _MISSING]
    if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vs): return ("int",)
    if all(isinstance(v, (bool, SBool)) for v in vs): return ("bool",)
    if vs and all(isinstance(v, MDict) for v in vs): return ("mdict",)
    if vs and hasattr(vs[0], "fresh_") and all(type(v) is type(vs[0]) for v in vs): return ("ext", type(vs[0]))
    if all(isinstance(v, (SVal, str, bytes, type(None), int, SInt, bool, SBool, float)) for v in vs):
        cl = {(v.cls if isinstance(v, SVal) else type(v)) for v in vs if v is not None}
        nul = any(v is None or isinstance(v, SVal) and v.nullable for v in vs)
        return ("val", cl.pop() if len(cl) == 1 else None, nul or len(cl) > 1)
    return ("poison",)


def havoc_kind(it, l, outs, key):
    if l.kind == "state": return ("poison",)
    vals = [o.after[key] for o in outs if key in o.locs]
    return havoc_of(it, l.read(), vals)


def infer_state(it, l, normal, k, exact=False):
    o = l.obj
    opss = [[x for x in q.ops if x[0] is o] for q in normal]
    if isinstance(o, MList):
        if not exact and all(len(x) == 1 and x[0][1] == "append" for x in opss) and opss:
            vs = [(q, x[0][2]) for q, x in zip(normal, opss)]
            if all(clean(v, k) for _, v in vs):
                try: return ("append", merge(it, vs))
                except Unsupported: pass
        if not exact and any(opss) and all(len(x) == 0 or len(x) == 1 and x[0][1] == "append" for x in opss):
            r = filter_of(it, [(q, x[0][2]) for q, x in zip(normal, opss) if x], normal, k)
            if r: return ("filter",) + r
        if not any(opss): return ("same",)
        return ("havoc", ("list",))
    if isinstance(o, MDict):
        if not exact and all(len(x) == 1 and x[0][1] == "set" for x in opss) and opss:
            ks = [(q, x[0][2]) for q, x in zip(normal, opss)]
            vs = [(q, x[0][3]) for q, x in zip(normal, opss)]
            if all(clean(v, k) for _, v in ks + vs):
                try: return ("dictset", merge(it, ks), merge(it, vs), z3.BoolVal(True))
                except Unsupported: pass
        if not exact and any(opss) and all(len(x) == 0 or len(x) == 1 and x[0][1] == "set" for x in opss):
            ks = filter_of(it, [(q, x[0][2]) for q, x in zip(normal, opss) if x], normal, k)
            vs = ks and filter_of(it, [(q, x[0][3]) for q, x in zip(normal, opss) if x], normal, k)
            if vs: return ("dictset", ks[1], vs[1], ks[0])
        if not any(opss): return ("same",)
        if not o.symbolic and all(x[1] == "set" and methods.dkey(it, x[2]) in o.d for q in opss for x in q):
            # entries that exist before the loop get new values
            vals = {}
            for q in opss:
                for x in q: vals.setdefault(methods.dkey(it, x[2]), []).append(x[3])
            return ("entries", tuple((ek, havoc_of(it, o.d[ek], vs)) for ek, vs in vals.items()))
        return ("havoc", ("dict",))
    return ("havoc", ("poison",))


def filter_of(it, kept, normal, k):
    """(P, V): element V(k) is kept exactly when P(k)."""
    if not kept or not all(clean(v, k) for _, v in kept): return None
    for q in normal:
        if any(is_fresh_after(x, k) for c in q.pc for x in symbols(c)): return None
    try: return z3.simplify(z3.Or(*[pcz(q) for q, _ in kept])), merge(it, kept)
    except Unsupported: return None


def filtered(it, P, K):
    """Positions j < K with P(j), in order: (how many, position of the i-th).  P is a function of j."""
    ctx = it.ctx
    j0 = z3.Int("j!filter")
    name = "filter%d" % ctx.run.idnames.setdefault(("filter", z3.simplify(P(j0)).sexpr()), len(ctx.run.idnames))
    cnt, sel = z3.Function(name + "_rank", I, I), z3.Function(name + "_pos", I, I)
    A, c = ctx.assume, cnt(K)
    A(z3.And(cnt(z3.IntVal(0)) == 0, c >= 0, c <= K))
    A(cnt(z3.simplify(K + 1)) == c + z3.If(P(K), 1, 0))
    A(forall_range(ctx, z3.IntVal(0), K, lambda j: z3.Implies(P(j), z3.And(sel(cnt(j)) == j, cnt(j) >= 0, cnt(j) < c))))
    i, j = z3.Int(ctx.name("i")), z3.Int(ctx.name("j"))
    for q in (z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), z3.And(sel(i) >= 0, sel(i) < K, P(sel(i)), cnt(sel(i)) == i)), patterns=[sel(i)]),
              z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < c), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))])):
        ctx.ranged[q.get_id()] = q
        A(q)
    return c, sel


def same_form(a, b):
    if a is None or b is None: return a is b
    if a[0] != b[0]: return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, (Obj, MList, MDict, tuple, SInt, SBool, SVal)):
            tx, ty = terms_of(x), terms_of(y)
            if len(tx) != len(ty) or any(not p.eq(q) and not z3.simplify(p).eq(z3.simplify(q)) for p, q in zip(tx, ty)): return False
        elif z3.is_expr(x):
            if not z3.is_expr(y) or not z3.simplify(x).eq(z3.simplify(y)): return False
        elif x is not y and x != y: return False
    return True


class Poison(Ext):
    """A value the analysis knows nothing about: any use is unsupported."""
    def getattr_(self, it, name): raise Unsupported("use of an unknown loop-carried value")
    def truth(self, it): raise Unsupported("use of an unknown loop-carried value")


def apply_form(it, l, form, K, ctx_main, k=None, n=None):
    """Put the location into its state at the head of iteration K."""
    ctx = it.ctx
    src = k if k is not None else K
    key = (l.kind if l.kind != "dict" else "dict", id(l.obj) if l.kind == "state" else id(l.container) if l.kind == "dict" else id(l.obj), l.name)
    def at(v, j):
        return v if j is None else subst(it, v, [(src, j)])
    if form is None: form = ("probe", l.read() if l.kind != "state" else None)
    kind = form[0]
    if l.kind == "state":
        o = l.obj
        if kind == "same": return
        ctx.touch(o)
        if isinstance(o, MList):
            if kind == "append":
                v = form[1]
                methods.symbolize(it, o)
                n0, g0 = o.n, o.get
                zero = z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0
                o.get = (lambda i: at(v, i)) if zero else (lambda i: ite(it, i < n0, g0(i), at(v, i - n0)))
                o.n = z3.simplify(n0 + K)
                return
            if kind == "filter":
                P, v = form[1], form[2]
                c, sel = filtered(it, lambda j: z3.substitute(P, (src, j)), K)
                methods.symbolize(it, o)
                n0, g0 = o.n, o.get
                zero = z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0
                o.get = (lambda i: at(v, sel(i))) if zero else (lambda i: ite(it, i < n0, g0(i), at(v, sel(i - n0))))
                o.n = z3.simplify(n0 + c)
                return
            if kind in ("havoc", "probe"):
                # length and contents unknown
                nn = ctx.fresh_int("hn")
                ctx.assume(nn >= 0)
                def unknown(i): raise Unsupported("element of a list changed by a loop in an unknown way")
                o.items, o.n, o.get = None, nn, unknown
                return
        if isinstance(o, MDict):
            if kind == "dictset":
                kv, vv, P = form[1:4]
                p = lambda j: z3.substitute(P, (src, j))
                methods.dict_symbolize(it, o)
                dom0, val0 = o.dom, o.val
                w = ctx.fresh_fn("w", U, I)
                kt = lambda j: it.term(at(kv, j))
                ctx.assume(forall_range(ctx, z3.IntVal(0), K, lambda j: z3.Implies(p(j), z3.And(w(kt(j)) >= j, w(kt(j)) < K, p(w(kt(j))), kt(w(kt(j))) == kt(j)))))
                hit = lambda x: z3.And(w(x) >= 0, w(x) < K, p(w(x)), kt(w(x)) == x)
                o.dom = lambda x: z3.Or(dom0(x), hit(x))
                def val(x):
                    new = at(vv, w(x))
                    try: old = val0(x)
                    except methods.EmptyGet: return new
                    return ite(it, hit(x), new, old)
                o.val = val
                o.order = None
                return
            if kind == "entries":
                for ek, hk in form[1]: o.d[ek] = fresh_kind(it, hk)
                return
            f, g = ctx.fresh_fn("hdom", U, B), ctx.fresh_fn("hval", U, U)
            o.d, o.dom, o.val, o.order = None, (lambda x: f(x)), (lambda x: SVal(g(x), None, True)), None
            return
        raise Unsupported("loop mutates a collection in an unknown way")
    if kind == "same": return
    if kind == "probe":
        v = fresh_like(it, form[1])
    elif kind == "lin":
        v = SInt(z3.simplify(it.z(form[1]) + form[2] * K))
        ctx.memo[("head", key)] = SInt(it.z(form[1]) + form[2] * K)
        l.write(it, v)
        return
    elif kind == "last":
        init, val = form[1], form[2]
        prev = at(val, z3.simplify(K - 1))
        try:
            v = ite(it, K > 0, prev, init) if init is not _MISSING else prev
        except Unsupported:
            v = Poison(ctx)
    elif kind == "cond":
        _, init, P, E = form
        m = ctx.fresh_int("m")
        P_ = lambda j: z3.substitute(P, (src, j))
        ctx.assume(z3.Or(m == -1, z3.And(m >= 0, m < K, P_(m))))
        ctx.assume(forall_range(ctx, z3.IntVal(0), K, lambda j: z3.Implies(j > m, z3.Not(P_(j)))))
        try: v = ite(it, m == -1, init, at(E, m))
        except Unsupported: v = Poison(ctx)
    elif kind == "fn":
        v = form[1].at(K)
    elif kind == "havoc":
        v = fresh_kind(it, form[1])
    else:
        raise Unsupported(kind)
    ctx.memo[("head", key)] = v
    l.write(it, v)


def fresh_like(it, v):
    ctx = it.ctx
    if isinstance(v, bool) or isinstance(v, SBool): return SBool(ctx.fresh_bool("h"))
    if isinstance(v, (int, SInt)): return SInt(ctx.fresh_int("h"))
    if isinstance(v, SVal): return SVal(ctx.fresh_u("h"), v.cls, v.nullable)
    if isinstance(v, (str, bytes)): return SVal(ctx.fresh_u("h"), type(v))
    if v is None: return SVal(ctx.fresh_u("h"), None, True)
    if v is _MISSING: return SVal(ctx.fresh_u("h"), None, True)
    if isinstance(v, Obj): return v if False else SVal(ctx.fresh_u("h"), v.cls)
    return SVal(ctx.fresh_u("h"), None, True)


def fresh_kind(it, kd):
    ctx = it.ctx
    if kd[0] == "int": return SInt(ctx.fresh_int("h"))
    if kd[0] == "bool": return SBool(ctx.fresh_bool("h"))
    if kd[0] == "val": return SVal(ctx.fresh_u("h"), kd[1], kd[2])
    if kd[0] == "ext": return kd[1].fresh_(it)
    if kd[0] == "mdict":
        f, g = ctx.fresh_fn("hdom", U, B), ctx.fresh_fn("hval", U, U)
        return MDict(ctx, None, lambda x: f(x), lambda x: SVal(g(x), None, True))
    return Poison(ctx)


# ---------------------------------------------------------------- comprehensions
SKIP = object()


def map_symbolic(it, f, l):
    ctx = it.ctx
    k = ctx.fresh_int("k")
    ident0 = ctx.idents
    def go():
        ctx.assume(z3.And(k >= 0, k < l.n))
        jm, pcm = len(ctx.journal), len(ctx.assumptions)
        v = f(l.get(k))
        if any(loc[0] != "dict" and getattr(loc[1], "ident", 0) <= ident0 for loc, _ in ctx.journal[jm:] if loc[0] != "attr"):
            raise Unsupported("side effects in a comprehension")
        o = IterOut(); o.v, o.pc = snap(it, v, ident0), list(ctx.assumptions[pcm:])
        return o
    outs = [o for o, _ in ctx.sub_explore(go)]
    if not outs:
        return MList(ctx, [])
    if any(o.v is SKIP for o in outs):
        kept = [(o, o.v) for o in outs if o.v is not SKIP]
        if not kept: return MList(ctx, [])
        r = filter_of(it, kept, outs, k)
        if r is None: raise Unsupported("filtering comprehension")
        P, v = r
        c, sel = filtered(it, lambda j: z3.substitute(P, (k, j)), l.n)
        return MList(ctx, None, z3.simplify(c), lambda i: subst(it, v, [(k, sel(i))]))
    for o in outs:
        if not clean(o.v, k): raise Unsupported("comprehension element depends on fresh values")
    v = merge(it, [(o, o.v) for o in outs])
    return MList(ctx, None, l.n, lambda i: subst(it, v, [(k, i)]))


def comprehension(it, e, fr, kind):
    ctx = it.ctx
    inner = Frame({}, fr, fr.globals, fr.mangle, fr.cls_cell, {}, fr.fnname + ".<comp>")
    def rec(gens, emit):
        if not gens: emit(); return
        g = gens[0]
        l = to_list(it, it.ev(g.iter, inner if gens is not e.generators else fr))
        if l.symbolic:
            raise SymGen(l)
        for x in list(l.items):
            it.assign(g.target, x, inner)
            if all(it.truth(it.ev(c, inner)) for c in g.ifs): rec(gens[1:], emit)
    out = MList(ctx, [])
    try:
        rec(e.generators, lambda: out.items.append(it.ev(e.elt, inner)))
        return out
    except SymGen as sg:
        l = sg.l
    if len(e.generators) != 1: raise Unsupported("nested comprehension over a symbolic sequence")
    g = e.generators[0]
    def f(x):
        it.assign(g.target, x, inner)
        if not all(it.truth(it.ev(c, inner)) for c in g.ifs): return SKIP
        return it.ev(e.elt, inner)
    return map_symbolic(it, f, l)


class SymGen(Exception):
    def __init__(self, l): self.l = l


def dict_comprehension(it, e, fr):
    ctx = it.ctx
    inner = Frame({}, fr, fr.globals, fr.mangle, fr.cls_cell, {}, fr.fnname + ".<comp>")
    d = MDict(ctx, {})
    def rec(gens):
        if not gens:
            methods.setitem(it, d, it.ev(e.key, inner), it.ev(e.value, inner)); return
        g = gens[0]
        l = to_list(it, it.ev(g.iter, inner if gens is not e.generators else fr))
        if l.symbolic: raise Unsupported("dict comprehension over a symbolic sequence")
        for x in list(l.items):
            it.assign(g.target, x, inner)
            if all(it.truth(it.ev(c, inner)) for c in g.ifs): rec(gens[1:])
    rec(e.generators)
    return d
