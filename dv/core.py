"""Symbolic values, path context and obligation bookkeeping of the verifier."""
import time
import z3
from . import env
env.guard_solver(z3)

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()
NONE = z3.Const("None!", U)
int2u = z3.Function("int2u", I, U)
u2int = z3.Function("u2int", U, I)
bool2u = z3.Function("bool2u", B, U)
truthy = z3.Function("truthy", U, B)


class Unsupported(Exception):
    """The function uses a construct outside the verifier's subset."""


class PathEnd(BaseException):
    """This path needs no further exploration (infeasible, or cut at a loop head)."""


class PyExc(BaseException):
    """A Python exception raised by the interpreted program."""
    def __init__(self, val):
        self.val = val


# ---------------------------------------------------------------- values
class Sym:
    pass


class SInt(Sym):
    def __init__(self, z): self.z = z
    def __repr__(self): return f"SInt({self.z})"


class SBool(Sym):
    def __init__(self, z): self.z = z
    def __repr__(self): return f"SBool({self.z})"


class SVal(Sym):
    """Opaque value of sort U; cls is the Python class it is known to have (None: unknown)."""
    def __init__(self, z, cls=None, nullable=False):
        self.z, self.cls, self.nullable = z, cls, nullable
    def __repr__(self): return f"SVal({self.z}:{getattr(self.cls, '__name__', self.cls)}{'?' if self.nullable else ''})"


class Obj:
    """Heap object of a real class."""
    def __init__(self, ctx, cls, fields=None, frozen=False):
        self.cls, self.fields, self.frozen = cls, dict(fields or {}), frozen
        self.ident = ctx.new_ident()
        ctx.heap_alloc(self)
    def __repr__(self): return f"<Obj {self.cls.__name__}#{self.ident}>"


class MList:
    """Mutable list: either concrete length (items) or symbolic (n, get)."""
    def __init__(self, ctx, items=None, n=None, get=None):
        self.items, self.n, self.get = items, n, get
        self.ident = ctx.new_ident()
        ctx.heap_alloc(self)
    @property
    def symbolic(self): return self.items is None
    def state(self): return (None if self.items is None else list(self.items), self.n, self.get)
    def restore(self, s): self.items, self.n, self.get = s
    def __repr__(self): return f"<MList#{self.ident} {'n=' + str(self.n) if self.symbolic else self.items}>"


class MDict:
    """Mutable dict: concrete (d) or symbolic (dom, val over key terms; size optional)."""
    frozen = False
    def __init__(self, ctx, d=None, dom=None, val=None, order=None):
        self.d, self.dom, self.val, self.order = d, dom, val, order
        self.ident = ctx.new_ident()
        ctx.heap_alloc(self)
    @property
    def symbolic(self): return self.d is None
    def state(self): return (None if self.d is None else dict(self.d), self.dom, self.val, self.order)
    def restore(self, s): self.d, self.dom, self.val, self.order = s
    def __repr__(self): return f"<MDict#{self.ident} {'sym' if self.symbolic else self.d}>"


class MSet:
    def __init__(self, ctx, items):
        self.items = list(items)
        self.ident = ctx.new_ident()
        ctx.heap_alloc(self)
    symbolic = False
    def state(self): return list(self.items)
    def restore(self, s): self.items = s


class Ext:
    """Collaborator modelled by a Python class of the specification.

    attributes: method names m_<name> become callables m_<name>(interp, *args, **kw);
    g_<name>(interp) are attribute getters; state lives in self.st (journaled)."""
    pycls = None
    def __init__(self, ctx, **st):
        self.ctx = ctx
        self.st = dict(st)
        self.ident = ctx.new_ident()
        ctx.heap_alloc(self)
    def set(self, name, v):
        self.ctx.log(("ext", self, name), self.st.get(name, _MISSING))
        self.st[name] = v


class Coro:
    """An unawaited coroutine: a thunk."""
    def __init__(self, thunk, label=""):
        self.thunk, self.label, self.done = thunk, label, False


class UExc:
    """An exception of unknown class below `upper`; decided lazily by except clauses."""
    def __init__(self, ctx, upper=Exception, label="exc", excluded=()):
        self.upper, self.yes, self.no, self.label = upper, [], list(excluded), label
        self.term = ctx.fresh_u("exc_" + label)
        self.fields = {}
    def __repr__(self): return f"<UExc {self.label} yes={[c.__name__ for c in self.yes]} no={[c.__name__ for c in self.no]}>"


_MISSING = object()


class Obligation:
    __slots__ = ("name", "status", "where", "detail", "seconds", "backend", "model")
    def __init__(self, name, status, where, detail, seconds, backend, model=None):
        self.name, self.status, self.where, self.detail = name, status, where, detail
        self.seconds, self.backend, self.model = seconds, backend, model


class Ctx:
    """One path."""
    def __init__(self, run, prefix):
        self.run = run
        self.prefix = list(prefix)
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", run.branch_ms)
        self.assumptions = []
        self.pc_marks = []
        self.counter = 0
        self.idents = 0
        self.trace = []
        self.journal = []
        self.oplog = []
        self.consts = {}
        self.constvals = {}
        self.nested = None
        self.overlay = {}
        self.memo = {}
        self.quiet = 0
        self.notes = []
        self.approx = False          # state was over-approximated: refutations are not trusted
        self.small = []              # sizes to bound when looking for a counter-model
        self.ranged = {}
        self.heap = {}
        self.frames = []
        self.assume(truthy(NONE) == False)
        i = z3.Int("i!")
        # (kept out of the branch solver: leaving an axiom out only explores more paths)
        self.assumptions.append(z3.ForAll([i], u2int(int2u(i)) == i, patterns=[int2u(i)]))
        self.assumptions.append(z3.ForAll([i], int2u(i) != NONE, patterns=[int2u(i)]))
        b = z3.Bool("b!")
        self.assume(z3.And(bool2u(True) != bool2u(False), bool2u(True) != NONE, bool2u(False) != NONE))

    # ---- names
    def new_ident(self):
        self.idents += 1
        return self.idents

    def heap_alloc(self, o):
        self.heap[o.ident] = o

    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh_int(self, base="n"): return z3.Int(self.name(base))
    def fresh_bool(self, base="b"): return z3.Bool(self.name(base))
    def fresh_u(self, base="u"): return z3.Const(self.name(base), U)
    def fresh_fn(self, base, *sorts): return z3.Function(self.name(base), *sorts)

    def const(self, v):
        """Interned constant of sort U for a concrete Python value."""
        if v is None:
            return NONE
        if isinstance(v, bool):
            return bool2u(z3.BoolVal(v))
        if isinstance(v, int):
            return int2u(z3.IntVal(v))
        try:
            key = (type(v).__name__, v)
            hash(key)
        except TypeError:
            key = ("id", id(v))
        if key not in self.consts:
            if key[0] == "id" and len(key) == 2 and isinstance(key[1], int) and not isinstance(v, str):
                label = f"id{self.run.idnames.setdefault(id(v), len(self.run.idnames))}"
                self.run.keepalive.append(v)
            else:
                label = f"{type(v).__name__}!{v!r}" if isinstance(v, (str, bytes, float)) else \
                    f"{type(v).__name__}!{self.run.idnames.setdefault(key, len(self.run.idnames))}"
            c = z3.Const("c!" + label, U)
            for o in self.consts.values():
                self.assume(c != o)
            self.assume(c != NONE)
            if isinstance(v, (str, bytes)):
                self.assume(truthy(c) == bool(v))
            self.consts[key] = c
            self.constvals[key] = v
        return self.consts[key]

    # ---- journal
    def log(self, loc, old):
        self.journal.append((loc, old))

    def rollback(self, mark):
        while len(self.journal) > mark:
            loc, old = self.journal.pop()
            kind = loc[0]
            if kind == "ext":
                _, e, n = loc
                if old is _MISSING: e.st.pop(n, None)
                else: e.st[n] = old
            elif kind == "dict":          # a raw python dict entry (locals, fields, overlay)
                _, d, n = loc[0], loc[1], loc[2]
                if old is _MISSING: d.pop(n, None)
                else: d[n] = old
            elif kind == "state":
                loc[1].restore(old)
            elif kind == "attr":
                setattr(loc[1], loc[2], old)
            else:
                raise AssertionError(kind)

    def setd(self, d, name, v, owner=None):
        self.journal.append((("dict", d, name, owner), d.get(name, _MISSING)))
        d[name] = v

    def deld(self, d, name, owner=None):
        self.journal.append((("dict", d, name, owner), d.get(name, _MISSING)))
        del d[name]

    def touch(self, o):
        """Call before mutating a MList/MDict/MSet."""
        if getattr(o, "frozen", False): raise Unsupported("a dict made in a loop is changed later")
        self.journal.append((("state", o), o.state()))

    # ---- logic
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.assumptions.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.run.solver_s += time.time() - t
        return r

    def feasible(self, c):
        return self._check(c) != z3.unsat

    def branch(self, c, why=""):
        """Decide a condition on this path (forking when both outcomes are possible)."""
        if isinstance(c, SBool): c = c.z
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        pos = len(self.taken)
        dec = self.nested if self.nested is not None else self
        r = dec._decide(self, c)
        self.assume(c if r else z3.Not(c))
        return r

    def _decide(self, ctx, c, free=False):
        pos = len(self.taken)
        if pos < len(self.prefix):
            r = self.prefix[pos]
            self.taken.append(r)
            return r
        t = free or ctx.feasible(c)
        f = free or ctx.feasible(z3.Not(c))
        if t and f:
            self.run.schedule(self.taken + [False])
            self.taken.append(True)
            return True
        if not t and not f:
            raise PathEnd()
        self.taken.append(bool(t))
        return bool(t)

    def choose(self, label="choice"):
        """Unconstrained boolean choice."""
        b = self.fresh_bool(label)
        dec = self.nested if self.nested is not None else self
        r = dec._decide(self, b, free=True)
        self.assume(b if r else z3.Not(b))
        return r

    def choose_n(self, n, label="choice"):
        for i in range(n - 1):
            if self.choose(label):
                return i
        return n - 1

    def prove_quick(self, c, ms=2000):
        """True if c follows from the path condition (not an obligation: a case split helper)."""
        if isinstance(c, bool): return c
        self.solver.push()
        self.solver.set("timeout", ms)
        self.solver.add(z3.Not(c))
        t = time.time()
        r = self.solver.check()
        self.run.solver_s += time.time() - t
        self.solver.set("timeout", self.run.branch_ms)
        self.solver.pop()
        return r == z3.unsat

    def oblige(self, name, c, detail="", rep=False):
        """A proof obligation at this point of the path.  rep: about the representation (an invariant the
        proof needs, not the property itself): its failure means "not proved", never "violated"."""
        if self.quiet:
            return None
        return self.run.discharge(self, name, c, detail, rep)

    def event(self, kind, **data):
        self.journal.append((("attr", self, "trace"), self.trace))
        self.trace = self.trace + [(kind, data)]

    # ---- nested exploration with rollback (loop summaries, comprehensions)
    def sub_explore(self, fn, limit=64):
        """Runs fn() on every path from the current state; returns [(fn result, path condition)]
        and restores the state.  Obligations are silenced."""
        results, work = [], [[]]
        outer_consts, new_consts = dict(self.consts), {}
        mark_assume = len(self.assumptions)
        saved_nested, saved_trace, saved_overlay = self.nested, self.trace, dict(self.overlay)
        while work:
            prefix = work.pop()
            jmark = len(self.journal)
            self.solver.push()
            self.nested = _Nested(prefix, work)
            self.quiet += 1
            out = None
            try:
                out = fn()
                pc = list(self.assumptions[mark_assume:])
                results.append((out, pc))
            except PathEnd:
                pass
            finally:
                self.quiet -= 1
                self.nested = saved_nested
                self.rollback(jmark)
                self.trace = saved_trace
                self.solver.pop()
                for key in self.consts:
                    if key not in outer_consts:
                        new_consts[key] = self.constvals[key]
                self.consts = dict(outer_consts)
                del self.assumptions[mark_assume:]
            if len(results) > limit:
                raise Unsupported("too many paths in a loop body")
        for v in new_consts.values():
            self.const(v)
        return results


class _Nested:
    def __init__(self, prefix, work):
        self.prefix, self.taken, self.work = prefix, [], work

    def _decide(self, ctx, c, free=False):
        pos = len(self.taken)
        if pos < len(self.prefix):
            r = self.prefix[pos]
            self.taken.append(r)
            return r
        t = free or ctx.feasible(c)
        f = free or ctx.feasible(z3.Not(c))
        if t and f:
            self.work.append(self.taken + [False])
            self.taken.append(True)
            return True
        if not t and not f:
            raise PathEnd()
        self.taken.append(bool(t))
        return bool(t)


class Run:
    """Explores every path of one verification task and discharges its obligations."""
    def __init__(self, name, branch_ms=400, oblige_ms=15000, max_paths=4000, deadline=None):
        self.name, self.branch_ms, self.oblige_ms = name, branch_ms, oblige_ms
        self.max_paths, self.deadline = max_paths, deadline
        self.obligations = []
        self.solver_s = 0.0
        self.paths = 0
        self.completed = 0
        self.work = []
        self.unsupported = []
        self.notes = set()
        self.loops_inferred = 0
        self.loop_cache, self.loop_warm = {}, {}
        self.idnames = {}
        self.keepalive = []

    def schedule(self, prefix):
        self.work.append(prefix)

    def explore(self, task):
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                self.unsupported.append(f"more than {self.max_paths} paths")
                break
            if sum(1 for o in self.obligations if o.status == "refuted") >= 3:
                self.unsupported.append("stopped after three refuted obligations")
                break
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget of this proof used up")
                break
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            self.paths += 1
            try:
                task(ctx)
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
                break
            except PyExc as e:
                self.unsupported.append(f"exception outside the task: {e.val!r}")
                break
            except z3.Z3Exception as e:
                self.unsupported.append(f"z3: {e}")
                break
            except RecursionError:
                self.unsupported.append("recursion")
                break
            self.notes.update(ctx.notes)
        return self

    def discharge(self, ctx, name, c, detail="", rep=False):
        if isinstance(c, SBool): c = c.z
        t0 = time.time()
        if isinstance(c, bool):
            if c:
                ob = Obligation(name, "discharged", ctx.taken, detail, 0.0, "trivial")
            else:
                # a concretely false claim: refuted unless the path is infeasible
                r = self._solve(ctx, z3.BoolVal(True))
                st = "discharged" if r[0] == z3.unsat else "refuted"
                ob = Obligation(name, st, list(ctx.taken), detail, time.time() - t0, r[1], r[2])
        else:
            r = self._solve(ctx, z3.Not(c))
            st = "discharged" if r[0] == z3.unsat else "refuted" if r[0] == z3.sat else "undecided"
            ob = Obligation(name, st, list(ctx.taken), detail or str(c)[:400], time.time() - t0, r[1], r[2])
        if ob.status == "refuted" and (ctx.approx or rep): ob.status = "undecided"
        self.obligations.append(ob)
        return ob.status == "discharged"

    def _solve(self, ctx, neg):
        t = time.time()
        backend, model = "z3 " + z3.get_version_string(), None
        def first(ms):
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*ctx.assumptions)
            s.add(neg)
            return s, s.check()
        def ematch(ms):
            s = z3.SolverFor("AUFLIA")
            s.set("timeout", ms)
            s.set("mbqi", False)
            s.add(*ctx.assumptions)
            s.add(neg)
            return s, s.check()
        s, r = first(min(1000, self.oblige_ms))
        if r == z3.unknown and ematch(2000)[1] == z3.unsat: r, backend = z3.unsat, backend + " (e-matching)"
        if r == z3.unknown and ctx.small: s, r = first(min(4000, self.oblige_ms))
        if r == z3.unknown:
            m = self._refute(ctx, neg)
            if m is not None:
                self.solver_s += time.time() - t
                return z3.sat, "z3 (bounded model search)", m
        if r == z3.unknown:
            s2, r2 = ematch(self.oblige_ms)
            if r2 == z3.unsat: r, backend = z3.unsat, backend + " (e-matching)"
            elif _cvc5(s2, self.oblige_ms) == "unsat": r, backend = z3.unsat, "cvc5"
            elif self.oblige_ms > 1000: s, r = first(self.oblige_ms)
        if r == z3.sat:
            m = s.model()
            model = {str(d): str(m[d])[:300] for d in m.decls() if m[d] is not None}
        self.solver_s += time.time() - t
        return r, backend, model

    def _refute(self, ctx, neg, bound=3, lo=-2, hi=14):
        """Counter-model with small sizes: range quantifiers are expanded over their indices, the
        remaining (pattern) axioms are instantiated at the ground terms that occur."""
        import itertools
        ground, axioms, anyrange = ([t <= bound for t in ctx.small] if bound is not None else []) + [neg], [], False
        for a in ctx.assumptions:
            if not z3.is_quantifier(a): ground.append(a)
            elif a.get_id() in ctx.ranged:
                anyrange = True
                if bound is None: return None
                for vs in itertools.product(range(lo, hi), repeat=a.num_vars()):
                    ground.append(z3.simplify(z3.substitute_vars(a.body(), *[z3.IntVal(v) for v in reversed(vs)])))
            else: axioms.append(a)
        done = set()
        for rnd in range(3):
            apps, seen, stack = {}, set(), list(ground)
            while stack:
                x = stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x): return None
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1: apps.setdefault(x.decl().name(), []).append(x.arg(0))
                    stack.extend(x.children())
            new = []
            for q in axioms:
                if q.num_vars() != 1 or q.num_patterns() != 1: return None
                p = q.pattern(0)
                p = p.children()[0] if z3.is_app(p) and p.decl().name() == "pattern" else p
                for t in apps.get(p.decl().name(), []):
                    if (q.get_id(), t.get_id()) in done: continue
                    done.add((q.get_id(), t.get_id()))
                    new.append(z3.substitute_vars(q.body(), t))
            if not new: break
            ground += new
        s = z3.Solver()
        s.set("timeout", 8000)
        s.add(*ground)
        if s.check() == z3.sat:
            m = s.model()
            return {str(d): str(m[d])[:300] for d in m.decls() if m[d] is not None}
        # nothing was expanded over small indices: no need to keep the sizes small
        return self._refute(ctx, neg, None) if bound is not None and ctx.small and not anyrange else None


def _cvc5(solver, ms):
    import subprocess, tempfile, os
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + solver.to_smt2())
        out = subprocess.run(["cvc5", f"--tlimit={ms}", p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return out.stdout.strip().splitlines()[0] if out.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)
