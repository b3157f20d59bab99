"""Models of Python's built-in operations (trusted; cross-checked by the runtime engine)."""
import asyncio, builtins, enum, inspect, json, types, copy, operator, time, timeit, uuid
import z3
from .core import *
from .core import _MISSING
from .interp import (Star, DictView, BoundMethod, ModelFn, NativeMethod, Closure, NullLog, is_plain, to_native, PLAIN, CtxVar)

NOPE = object()

_NATIVE_MODULES = {"builtins", "_operator", "operator", "math", "string", "re", "posixpath", "genericpath", "typing",
                   "itertools", "functools", "_functools", "copy", "inspect", "uuid", "json", "json.decoder", "datetime"}


def native_ok(fn):
    if isinstance(fn, type) and issubclass(fn, enum.Enum): return True
    mod = getattr(fn, "__module__", None)
    name = getattr(fn, "__name__", "")
    if name in ("open", "exec", "eval", "input", "__import__", "compile", "print", "uuid4", "uuid1", "id", "hash"): return False
    if mod in _NATIVE_MODULES: return True
    return False


# ---------------------------------------------------------------- structural helpers
def ite(it, c, a, b):
    """Value-level if-then-else."""
    if isinstance(c, bool): return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return SInt(z3.If(c, it.z(a), it.z(b)))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, it.zb(a), it.zb(b)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.fields) == set(b.fields):
        return Obj(it.ctx, a.cls, {k: ite(it, c, a.fields[k], b.fields[k]) for k in a.fields}, frozen=True)
    if isinstance(a, MDict) and isinstance(b, MDict) and a.frozen and b.frozen and list(a.d) == list(b.d):
        r = MDict(it.ctx, {k: ite(it, c, a.d[k], b.d[k]) for k in a.d})
        r.frozen = True
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(it, c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ext) and isinstance(b, Ext) and type(a) is type(b) and hasattr(a, "ite_"):
        return a.ite_(it, c, b)
    if isinstance(a, (SVal, str, bytes, int, bool, type(None), SInt, SBool, float)) and isinstance(b, (SVal, str, bytes, int, bool, type(None), SInt, SBool, float)):
        ca = a.cls if isinstance(a, SVal) else type(a)
        cb = b.cls if isinstance(b, SVal) else type(b)
        nul = (a is None or b is None or (isinstance(a, SVal) and a.nullable) or (isinstance(b, SVal) and b.nullable))
        if a is None: ca = cb
        if b is None: cb = ca
        return SVal(z3.If(c, it.term(a), it.term(b)), ca if ca is cb else None, nul)
    raise Unsupported(f"merging {a!r} and {b!r}")


def subst(it, v, pairs):
    """Substitute z3 terms inside a value (fresh frozen copy)."""
    if isinstance(v, SInt): return SInt(z3.substitute(v.z, *pairs))
    if isinstance(v, SBool): return SBool(z3.substitute(v.z, *pairs))
    if isinstance(v, SVal):
        r = SVal(z3.substitute(v.z, *pairs), v.cls, v.nullable)
        if getattr(v, "pieces", None): r.pieces = [subst(it, p, pairs) for p in v.pieces]
        return r
    if isinstance(v, Obj):
        return Obj(it.ctx, v.cls, {k: subst(it, x, pairs) for k, x in v.fields.items()}, frozen=True)
    if isinstance(v, tuple): return tuple(subst(it, x, pairs) for x in v)
    if isinstance(v, Ext):
        if hasattr(v, "subst_"): return v.subst_(it, pairs)
        return v
    if isinstance(v, MList):
        if not v.symbolic: return MList(it.ctx, [subst(it, x, pairs) for x in v.items])
        g = v.get
        return MList(it.ctx, None, z3.substitute(v.n, *pairs), lambda i, g=g: subst(it, g(i), pairs))
    if isinstance(v, MDict):
        if not v.symbolic:
            r = MDict(it.ctx, {k: subst(it, x, pairs) for k, x in v.d.items()})
            r.frozen = v.frozen
            return r
        raise Unsupported("dict inside a symbolic sequence")
    return v


def terms_of(v, acc=None):
    """All z3 terms inside a value."""
    acc = [] if acc is None else acc
    if isinstance(v, (SInt, SBool, SVal)): acc.append(v.z)
    elif isinstance(v, Obj):
        for x in v.fields.values(): terms_of(x, acc)
    elif isinstance(v, tuple):
        for x in v: terms_of(x, acc)
    elif isinstance(v, MList):
        if v.symbolic: acc.append(v.n)
        else:
            for x in v.items: terms_of(x, acc)
    elif isinstance(v, MDict) and not v.symbolic:
        for x in v.d.values(): terms_of(x, acc)
    elif isinstance(v, Ext) and hasattr(v, "terms_"): acc.extend(v.terms_())
    return acc


def symbols(t, acc=None, seen=None):
    """Names of the uninterpreted constants in a z3 term."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            stack.extend(x.children())
    return acc


def forall_range(ctx, lo, hi, body):
    q = _forall_range(ctx, lo, hi, body)
    ctx.ranged[q.get_id()] = q
    return q


def _forall_range(ctx, lo, hi, body):
    """ForAll j in [lo,hi): body(j), re-indexed so that a base function applied to the bound
    variable alone can serve as the trigger."""
    j = z3.Int(ctx.name("j"))
    f = body(j)
    if isinstance(f, bool): f = z3.BoolVal(f)
    f = z3.simplify(f)
    full = z3.Implies(z3.And(lo <= j, j < hi), f)
    apps = []
    seen = set()
    def walk(t):
        if t.get_id() in seen or z3.is_quantifier(t): return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).sort() == I and j.decl().name() in symbols(t.arg(0)):
                apps.append(t)
            for c in t.children(): walk(c)
    walk(f)
    for t in apps:
        a = t.arg(0)
        if a.eq(j):
            return z3.ForAll([j], full, patterns=[t])
        if z3.is_app(a) and any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and j.decl().name() in symbols(x) for x in _subs(a)):
            continue
        a0 = z3.simplify(z3.substitute(a, (j, z3.IntVal(0))))
        d1 = z3.simplify(z3.substitute(a, (j, z3.IntVal(1))) - a0)
        d2 = z3.simplify(z3.substitute(a, (j, z3.IntVal(2))) - a0)
        if z3.is_int_value(d1) and d1.as_long() in (1, -1) and z3.is_int_value(d2) and d2.as_long() == 2 * d1.as_long():
            p = z3.Int(ctx.name("p"))
            new_j = (p - a0) if d1.as_long() == 1 else (a0 - p)
            g = z3.simplify(z3.substitute(full, (j, new_j)))
            pat = t.decl()(p)
            if any(x.eq(pat) for x in _subs(g)):
                return z3.ForAll([p], g, patterns=[pat])
            return z3.ForAll([p], z3.And(g, pat == pat), patterns=[pat])
    return z3.ForAll([j], full)


def _subs(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return out


# ---------------------------------------------------------------- sequences
def seq_len(it, v):
    if isinstance(v, MList): return SInt(v.n) if v.symbolic else len(v.items)
    if isinstance(v, MDict):
        if v.symbolic:
            if v.order is not None: return SInt(v.order.n)
            raise Unsupported("len of a symbolic dict")
        return len(v.d)
    if isinstance(v, MSet): return len(v.items)
    if isinstance(v, DictView): return seq_len(it, v.d)
    if isinstance(v, (str, bytes, tuple)): return len(v)
    if isinstance(v, Obj):
        f = it.lookup(v.cls, "__len__")
        if f is None: it.raise_py(TypeError, "no len()")
        return it.call(BoundMethod(f, v), [], {})
    if isinstance(v, SVal):
        m = v.cls and it.attr_models.get((v.cls, "__len__"))
        if m: return m(it, v)
        t = z3.Function("len_of", U, I)(v.z)
        it.ctx.assume(t >= 0)
        if v.cls in (str, bytes, list, dict, set, tuple): it.ctx.assume(truthy(v.z) == (t > 0))
        elif v.cls is None: raise Unsupported("len of an unknown value")
        return SInt(t)
    if isinstance(v, Ext) and hasattr(v, "len_"): return v.len_(it)
    if v is None or isinstance(v, (int, SInt)): it.raise_py(TypeError, "object has no len()")
    raise Unsupported(f"len of {v!r}")


def to_list(it, v):
    """A fresh MList with the elements of an iterable."""
    ctx = it.ctx
    if isinstance(v, MList):
        return MList(ctx, None, v.n, v.get) if v.symbolic else MList(ctx, list(v.items))
    if isinstance(v, tuple): return MList(ctx, list(v))
    if isinstance(v, (str, bytes)): return MList(ctx, list(v))
    if isinstance(v, MSet): return MList(ctx, list(v.items))
    if isinstance(v, MDict): return to_list(it, DictView(v, "keys"))
    if isinstance(v, DictView):
        d = v.d
        if d.symbolic:
            if d.order is None: raise Unsupported("iteration over a symbolic dict")
            o = d.order
            if v.kind == "keys": return MList(ctx, None, o.n, o.get)
            if v.kind == "values": return MList(ctx, None, o.n, lambda i: d.val(it.term(o.get(i))))
            return MList(ctx, None, o.n, lambda i: (o.get(i), d.val(it.term(o.get(i)))))
        ks = [k.v if isinstance(k, KeyBox) else k for k in d.d]
        if v.kind == "keys": return MList(ctx, ks)
        if v.kind == "values": return MList(ctx, list(d.d.values()))
        return MList(ctx, list(zip(ks, d.d.values())))
    if isinstance(v, Ext) and hasattr(v, "iter_"): return v.iter_(it)
    if isinstance(v, Obj):
        f = it.lookup(v.cls, "__iter__")
        if f is not None: return to_list(it, it.call(BoundMethod(f, v), [], {}))
    if isinstance(v, SVal) and hasattr(it, "opaque_iter"): return it.opaque_iter(v)
    if isinstance(v, range): return MList(ctx, list(v))
    if v is None or isinstance(v, (int, SInt)): it.raise_py(TypeError, "object is not iterable")
    if isinstance(v, type) and issubclass(v, enum.Enum): return MList(ctx, list(v))
    raise Unsupported(f"iteration over {v!r}")


def to_items(it, v):
    l = to_list(it, v)
    if l.symbolic: raise Unsupported("symbolic sequence where a concrete one is needed")
    return l.items


def make_set(it, items):
    s = MSet(it.ctx, [])
    for x in items: set_add(it, s, x)
    return s


def set_contains(it, s, x):
    cs = []
    for y in s.items:
        r = it.eq(x, y)
        if r is True: return True
        if r is not False: cs.append(r.z)
    return SBool(z3.Or(*cs)) if cs else False


def set_add(it, s, x):
    if not it.truth(set_contains(it, s, x)):
        it.ctx.touch(s)
        s.items = s.items + [x]


def list_append(it, l, v):
    it.ctx.touch(l)
    it.ctx.oplog.append((l, "append", v))
    if not l.symbolic: l.items.append(v); return
    n, g = l.n, l.get
    if getattr(l, "generic", False):
        l.n = n + 1
        return
    l.get = lambda i: ite(it, i == n, v, _lazy(g, i)) if not _same(i, n) else v
    l.n = z3.simplify(n + 1)


def _same(a, b):
    return a.eq(b)


def _lazy(g, i): return g(i)


def list_extend(it, l, other):
    o = to_list(it, other)
    if not o.symbolic:
        for x in o.items: list_append(it, l, x)
        return
    it.ctx.touch(l)
    it.ctx.oplog.append((l, "extend", o))
    symbolize(it, l)
    n, g, g2 = l.n, l.get, o.get
    if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0: l.get = g2
    else: l.get = lambda i: ite(it, i < n, g(i), g2(i - n))
    l.n = n + o.n


def symbolize(it, l):
    """Turn a concrete-length list into the symbolic representation."""
    if l.symbolic: return
    items = list(l.items)
    def get(i):
        if not items: raise EmptyGet()
        r = items[-1]
        for k in range(len(items) - 2, -1, -1): r = ite(it, i == k, items[k], r)
        return r
    l.items, l.n, l.get = None, z3.IntVal(len(items)), get


class EmptyGet(Exception):
    pass


def norm_index(it, n, i, what="index"):
    """Python index to position; raises IndexError on that path."""
    zi = it.z(i)
    if it.ctx.branch(zi >= 0): p = zi
    else: p = zi + n
    if not it.ctx.branch(z3.And(p >= 0, p < n)): it.raise_py(IndexError, f"{what} out of range")
    return z3.simplify(p)


def list_pop(it, l, i):
    it.ctx.touch(l)
    it.ctx.oplog.append((l, "pop", i))
    if not l.symbolic and isinstance(i, int):
        try:
            return l.items.pop(i)
        except IndexError:
            it.raise_py(IndexError, "pop index out of range")
    symbolize(it, l)
    p = norm_index(it, l.n, i, "pop index")
    g = l.get
    v = g(p)
    if z3.is_int_value(p) and p.as_long() == 0: l.get = lambda j: g(z3.simplify(j + 1))
    elif p.eq(z3.simplify(l.n - 1)): l.get = g
    else: l.get = lambda j: ite(it, j < p, g(j), g(j + 1))
    l.n = z3.simplify(l.n - 1)
    return v


class KeyBox:
    """Concrete dict key for a value that is not natively hashable in the model (objects by identity)."""
    def __init__(self, v): self.v = v
    def __hash__(self): return hash(id(self.v))
    def __eq__(self, o): return isinstance(o, KeyBox) and o.v is self.v


def dkey(it, k):
    """Concrete key or None when symbolic."""
    if isinstance(k, (Sym, UExc)): return None
    if isinstance(k, tuple):
        return k if all(dkey(it, x) is not None for x in k) and is_plain(k) else None
    if isinstance(k, Obj):
        if cls_eq(it, k): return None
        return KeyBox(k)
    if isinstance(k, (Ext, Closure, BoundMethod, ModelFn)): return KeyBox(k)
    if isinstance(k, (MList, MDict, MSet)): it.raise_py(TypeError, "unhashable type")
    return k


def cls_eq(it, k):
    return (k.cls, "__term__") in it.attr_models


def dict_symbolize(it, d):
    if d.symbolic: return
    items = list(d.d.items())
    def dom(k): return z3.Or(*[k == it.term(x.v if isinstance(x, KeyBox) else x) for x, _ in items]) if items else z3.BoolVal(False)
    def val(k):
        if not items: raise EmptyGet()
        r = items[-1][1]
        for x, v in items[:-1][::-1]: r = ite(it, k == it.term(x.v if isinstance(x, KeyBox) else x), v, r)
        return r
    d.d, d.dom, d.val, d.order = None, dom, val, None


def dict_contains(it, d, k):
    c = dkey(it, k)
    if not d.symbolic:
        if c is not None and not any(dkey_sym(x) for x in d.d): return c in d.d
        if not d.d: return False
        t = it.term(k)
        return SBool(z3.Or(*[t == it.term(x.v if isinstance(x, KeyBox) else x) for x in d.d]))
    return SBool(d.dom(it.term(k)))


def dkey_sym(x): return False


def dict_get(it, d, k):
    """Value for a key known to be present on this path."""
    c = dkey(it, k)
    if not d.symbolic and c is not None: return d.d[c]
    if not d.symbolic:
        t = it.term(k)
        ks = list(d.d.items())
        for x, v in ks[:-1]:
            if it.ctx.branch(t == it.term(x.v if isinstance(x, KeyBox) else x)): return v
        return ks[-1][1]
    return d.val(it.term(k))


def dict_set(it, d, k, v):
    c = dkey(it, k)
    it.ctx.touch(d)
    it.ctx.oplog.append((d, "set", k, v))
    if not d.symbolic and c is not None:
        d.d[c] = v
        return
    if not d.symbolic: dict_symbolize(it, d)
    if getattr(d, "generic", False): return
    t = it.term(k)
    dom, val, order = d.dom, d.val, d.order
    if order is not None:
        if not it.ctx.branch(dom(t)):
            o = MList(it.ctx, None, order.n, order.get)
            list_append(it, o, k)
            d.order = o
    d.dom = lambda x: z3.Or(x == t, dom(x))
    def nval(x):
        if x.eq(t): return v
        try:
            rest = val(x)
        except EmptyGet:
            return v
        return ite(it, x == t, v, rest)
    d.val = nval


def dict_merge(it, d, dom2, val2):
    """d.update(m) for a symbolic mapping m."""
    it.ctx.touch(d)
    it.ctx.oplog.append((d, "merge"))
    dict_symbolize(it, d)
    dom, val = d.dom, d.val
    d.dom = lambda x: z3.Or(dom(x), dom2(x))
    def nval(x):
        try: old = val(x)
        except EmptyGet: return val2(x)
        return ite(it, dom2(x), val2(x), old)
    d.val, d.order = nval, None


def dict_del(it, d, k):
    c = dkey(it, k)
    it.ctx.touch(d)
    it.ctx.oplog.append((d, "del", k))
    if not d.symbolic and c is not None: del d.d[c]; return
    if not d.symbolic: dict_symbolize(it, d)
    t = it.term(k)
    dom = d.dom
    d.dom = lambda x: z3.And(x != t, dom(x))
    if d.order is not None: d.order = None


# ---------------------------------------------------------------- subscripts
def slice_bounds(it, n, s):
    def nb(x, default):
        if x is None: return default
        z = it.z(x)
        z = z3.If(z < 0, z + n, z)
        return z3.simplify(z3.If(z < 0, 0, z3.If(z > n, n, z)))
    if s.step is not None and s.step != 1: raise Unsupported("slice step")
    lo, hi = nb(s.start, z3.IntVal(0)), nb(s.stop, n)
    return lo, z3.simplify(z3.If(hi < lo, lo, hi))


def getitem(it, o, k):
    if isinstance(k, slice):
        if isinstance(o, (str, bytes, tuple)) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return o[k]
        if isinstance(o, MList):
            if not o.symbolic and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return MList(it.ctx, o.items[k])
            if o.symbolic and k.start is None and k.stop is None and k.step == -1:
                n, g = o.n, o.get
                return MList(it.ctx, None, n, lambda i: g(z3.simplify(n - 1 - i)))
            l = MList(it.ctx, None, o.n, o.get) if o.symbolic else MList(it.ctx, list(o.items))
            symbolize(it, l)
            lo, hi = slice_bounds(it, l.n, k)
            g = l.get
            return MList(it.ctx, None, z3.simplify(hi - lo), lambda i: g(z3.simplify(i + lo)))
        if isinstance(o, SVal):
            h = o.cls and it.attr_models.get((o.cls, "__slice__"))
            if h: return h(it, o, k)
            f = z3.Function(f"slice_of", U, U, U, U)
            return SVal(f(o.z, it.term(k.start), it.term(k.stop)), o.cls)
        if isinstance(o, Ext) and hasattr(o, "getitem_"): return o.getitem_(it, k)
        raise Unsupported("slice")
    if isinstance(o, MDict):
        c = dict_contains(it, o, k)
        if not it.truth(c): it.raise_py(KeyError, k)
        return dict_get(it, o, k)
    if isinstance(o, MList):
        if not o.symbolic and isinstance(k, int):
            try: return o.items[k]
            except IndexError: it.raise_py(IndexError, "list index out of range")
        if not isinstance(k, (int, SInt)): it.raise_py(TypeError, "list indices")
        l = o if o.symbolic else to_list(it, o)
        symbolize(it, l)
        return l.get(norm_index(it, l.n, k))
    if isinstance(o, (tuple, str, bytes)):
        if isinstance(k, int):
            try: return o[k]
            except IndexError: it.raise_py(IndexError, "index out of range")
        if isinstance(k, SInt) and isinstance(o, tuple):
            l = MList(it.ctx, list(o)); return getitem(it, l, k)
        raise Unsupported("subscript")
    if isinstance(o, SVal):
        h = o.cls and it.attr_models.get((o.cls, "__getitem__"))
        if h: return h(it, o, k)
        if o.cls is dict:
            f = z3.Function("has_key", U, U, B)
            if not it.ctx.branch(f(o.z, it.term(k))): it.raise_py(KeyError, k)
            return SVal(z3.Function("item_of", U, U, U)(o.z, it.term(k)), None, True)
        if o.cls is not None and o.cls not in (str, bytes, list, tuple):
            f = it.lookup(o.cls, "__getitem__")
            if f is None: it.raise_py(TypeError, "not subscriptable")
        raise Unsupported(f"subscript of {o!r}")
    if isinstance(o, Ext) and hasattr(o, "getitem_"): return o.getitem_(it, k)
    if isinstance(o, Obj):
        f = it.lookup(o.cls, "__getitem__")
        if f is None: it.raise_py(TypeError, f"'{o.cls.__name__}' object is not subscriptable")
        return it.call(BoundMethod(f, o), [k], {})
    if isinstance(o, type) or hasattr(o, "__class_getitem__"):
        if isinstance(o, type) and issubclass(o, enum.Enum):
            try: return o[k]
            except KeyError: it.raise_py(KeyError, k)
        return o
    if o is None: it.raise_py(TypeError, "'NoneType' object is not subscriptable")
    if is_plain(o) and is_plain(k):
        try: return it.wrap(o[to_native(k)])
        except Exception as e: it.raise_py(type(e), *e.args)
    raise Unsupported(f"subscript of {o!r}")


def setitem(it, o, k, v):
    if isinstance(o, MDict): return dict_set(it, o, k, v)
    if isinstance(o, MList):
        it.ctx.touch(o)
        it.ctx.oplog.append((o, "setitem", k, v))
        if not o.symbolic and isinstance(k, int):
            try: o.items[k] = v; return
            except IndexError: it.raise_py(IndexError, "list assignment index out of range")
        if isinstance(k, slice): raise Unsupported("slice assignment")
        symbolize(it, o)
        p, g = norm_index(it, o.n, k), o.get
        o.get = lambda i: ite(it, i == p, v, g(i))
        return
    if isinstance(o, Ext) and hasattr(o, "setitem_"): return o.setitem_(it, k, v)
    if isinstance(o, SVal):
        h = o.cls and it.attr_models.get((o.cls, "__setitem__"))
        if h: return h(it, o, k, v)
    if isinstance(o, Obj):
        f = it.lookup(o.cls, "__setitem__")
        if f is None: it.raise_py(TypeError, "item assignment")
        return it.call(BoundMethod(f, o), [k, v], {})
    raise Unsupported(f"item assignment on {o!r}")


def delitem(it, o, k):
    if isinstance(o, MDict):
        if not it.truth(dict_contains(it, o, k)): it.raise_py(KeyError, k)
        return dict_del(it, o, k)
    if isinstance(o, MList):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                it.ctx.touch(o); it.ctx.oplog.append((o, "clear")); o.items, o.n, o.get = [], None, None; return
            if k.step not in (None, 1): raise Unsupported("del slice")
            it.ctx.touch(o); it.ctx.oplog.append((o, "delslice"))
            if not o.symbolic and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
                del o.items[k]; return
            symbolize(it, o)
            lo, hi = slice_bounds(it, o.n, k)
            n, g = o.n, o.get
            if z3.simplify(hi - n).eq(z3.IntVal(0)): o.get = g
            else: o.get = lambda j: ite(it, j < lo, g(j), g(z3.simplify(j + hi - lo)))
            o.n = z3.simplify(n - (hi - lo))
            return
        list_pop(it, o, k); return
    if isinstance(o, Obj):
        f = it.lookup(o.cls, "__delitem__")
        if f is not None: return it.call(BoundMethod(f, o), [k], {})
    if isinstance(o, Ext) and hasattr(o, "delitem_"): return o.delitem_(it, k)
    raise Unsupported(f"del item of {o!r}")


# ---------------------------------------------------------------- operators
_NAT = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
        "Mod": operator.mod, "Pow": operator.pow, "LShift": operator.lshift, "RShift": operator.rshift,
        "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor}


def binop(it, op, a, b):
    if is_plain(a) and is_plain(b) and not isinstance(a, (MList, MDict, MSet)) and not isinstance(b, (MList, MDict, MSet)):
        try: return _NAT[op](a, b)
        except Exception as e: it.raise_py(type(e), *[str(x) for x in e.args])
    if isinstance(a, (SInt, int, SBool)) and isinstance(b, (SInt, int, SBool)):
        x, y = it.z(a), it.z(b)
        if op == "Add": return SInt(x + y)
        if op == "Sub": return SInt(x - y)
        if op == "Mult": return SInt(x * y)
        if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0:
            return SInt(x / y) if op == "FloorDiv" else SInt(x % y)
        if op == "LShift" and isinstance(b, int): return SInt(x * (1 << b))
        raise Unsupported(f"{op} on symbolic integers")
    strs = lambda v: isinstance(v, str) or (isinstance(v, SVal) and v.cls is str)
    if op == "Add" and (hasattr(a, "add_") or hasattr(b, "add_")):
        return (a if hasattr(a, "add_") else b).add_(it, a, b)
    if op == "Add" and strs(a) and strs(b):
        return it.concat([a, b])
    if op == "Add" and (isinstance(a, MList) and isinstance(b, MList)):
        r = to_list(it, a)
        list_extend(it, r, b)
        return r
    if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op == "BitOr" and isinstance(a, MDict) and (isinstance(b, MDict) or hasattr(b, "map_")):
        if not a.symbolic and isinstance(b, MDict) and not b.symbolic: return MDict(it.ctx, {**a.d, **b.d})
        r = call_method(it, a, "copy", [], {})
        call_method(it, r, "update", [b], {})
        return r
    if op == "BitOr" and isinstance(a, MSet) and isinstance(b, MSet): return make_set(it, a.items + b.items)
    if op == "Add" and isinstance(a, (SVal, bytes)) and isinstance(b, (SVal, bytes)):
        ca = a.cls if isinstance(a, SVal) else bytes
        h = ca and it.attr_models.get((ca, "__add__"))
        if h: return h(it, a, b)
    if op == "Mod" and isinstance(a, str):
        return it.val(z3.Function("fmt%", U, U, U)(it.term(a), it.term(b)), str)
    if isinstance(a, SVal) or isinstance(b, SVal):
        ca = a.cls if isinstance(a, SVal) else type(a)
        cb = b.cls if isinstance(b, SVal) else type(b)
        if ca in (float, int) or cb in (float, int):
            if getattr(it, "opaque_arith", False):
                return SVal(z3.Function("op" + op, U, U, U)(it.term(a), it.term(b)), float)
    for x, m in ((a, "__add__"),):
        if isinstance(a, Obj) and op == "Add":
            f = it.lookup(a.cls, "__add__")
            if f is not None: return it.call(BoundMethod(f, a), [b], {})
    raise Unsupported(f"{op} on {a!r} and {b!r}")


def compare(it, op, a, b):
    if isinstance(a, Ext) and hasattr(a, "compare_") and op not in ("Is", "IsNot", "In", "NotIn"): return a.compare_(it, op, b)
    if op == "Is": return it.is_(a, b)
    if op == "IsNot": return neg(it.is_(a, b))
    if op == "Eq": return it.eq(a, b)
    if op == "NotEq": return neg(it.eq(a, b))
    if op in ("In", "NotIn"):
        r = contains(it, b, a)
        return r if op == "In" else neg(r)
    if isinstance(a, (SInt, int, SBool)) and isinstance(b, (SInt, int, SBool)):
        if isinstance(a, (int)) and isinstance(b, (int)): pass
        else:
            x, y = it.z(a), it.z(b)
            return SBool({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
    if is_plain(a) and is_plain(b):
        try:
            return {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](to_native(a), to_native(b))
        except TypeError as e: it.raise_py(TypeError, str(e))
    if isinstance(a, SVal) or isinstance(b, SVal):
        if getattr(it, "opaque_arith", False):
            f = z3.Function("less", U, U, B)
            x, y = it.term(a), it.term(b)
            return SBool({"Lt": f(x, y), "Gt": f(y, x), "GtE": z3.Not(f(x, y)), "LtE": z3.Not(f(y, x))}[op])
    raise Unsupported(f"{op} on {a!r} and {b!r}")


def neg(r):
    return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))


def contains(it, c, x):
    if isinstance(c, DictView):
        if c.kind == "keys": return dict_contains(it, c.d, x)
        c = to_list(it, c)
    if isinstance(c, MDict): return dict_contains(it, c, x)
    if isinstance(c, MSet): return set_contains(it, c, x)
    if isinstance(c, (MList, tuple)):
        if isinstance(c, MList) and c.symbolic:
            raise Unsupported("membership in a symbolic list")
        return set_contains(it, MSet(it.ctx, c if isinstance(c, tuple) else c.items), x)
    if isinstance(c, (str, bytes)) and is_plain(x):
        try: return x in c
        except TypeError as e: it.raise_py(TypeError, str(e))
    if isinstance(c, SVal):
        h = c.cls and it.attr_models.get((c.cls, "__contains__"))
        if h: return h(it, c, x)
        if c.cls in (dict, set): return SBool(z3.Function("has_key", U, U, B)(c.z, it.term(x)))
        if c.cls is str: return SBool(z3.Function("has_substr", U, U, B)(c.z, it.term(x)))
    if isinstance(c, Ext) and hasattr(c, "contains_"): return c.contains_(it, x)
    if isinstance(c, Obj):
        f = it.lookup(c.cls, "__contains__")
        if f is not None:
            return SBoolify(it, it.call(BoundMethod(f, c), [x], {}))
    raise Unsupported(f"membership in {c!r}")


def SBoolify(it, v):
    return v if isinstance(v, (bool, SBool)) else it.truth(v)


# ---------------------------------------------------------------- methods of built-in types
def call_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if isinstance(o, MList):
        if name == "append": list_append(it, o, args[0]); return None
        if name == "extend": list_extend(it, o, args[0]); return None
        if name == "pop": return list_pop(it, o, args[0] if args else -1)
        if name == "copy": return to_list(it, o)
        if name == "clear": ctx.touch(o); ctx.oplog.append((o, "clear")); o.items, o.n, o.get = [], None, None; return None
        if name == "insert":
            ctx.touch(o); ctx.oplog.append((o, "insert"))
            if not o.symbolic and isinstance(args[0], int): o.items.insert(args[0], args[1]); return None
            symbolize(it, o)
            if args[0] != 0: raise Unsupported("insert")
            n, g, v = o.n, o.get, args[1]
            o.get = lambda i: v if (z3.is_int_value(i) and i.as_long() == 0) else ite(it, i == 0, v, g(z3.simplify(i - 1)))
            o.n = n + 1
            return None
        if name == "reverse":
            ctx.touch(o); ctx.oplog.append((o, "reverse"))
            if not o.symbolic: o.items.reverse(); return None
            n, g = o.n, o.get
            o.get = lambda i: g(z3.simplify(n - 1 - i)); return None
        if name == "index" and not o.symbolic:
            for i, x in enumerate(o.items):
                if it.truth(it.eq(x, args[0])): return i
            it.raise_py(ValueError, "not in list")
        if name == "remove" and not o.symbolic:
            for i, x in enumerate(o.items):
                if it.truth(it.eq(x, args[0])):
                    list_pop(it, o, i); return None
            it.raise_py(ValueError, "not in list")
        if name == "count" and not o.symbolic:
            c = 0
            for x in o.items:
                if it.truth(it.eq(x, args[0])): c += 1
            return c
        if name == "sort" and is_plain(o):
            ctx.touch(o); o.items.sort(**kwargs); return None
        if name == "__len__": return seq_len(it, o)
        if name == "__iter__": return to_list(it, o)
    elif isinstance(o, MDict):
        if name in ("keys", "values", "items"): return DictView(o, name)
        if name == "get":
            if it.truth(dict_contains(it, o, args[0])): return dict_get(it, o, args[0])
            return args[1] if len(args) > 1 else kwargs.get("default")
        if name == "pop":
            if it.truth(dict_contains(it, o, args[0])):
                v = dict_get(it, o, args[0]); dict_del(it, o, args[0]); return v
            if len(args) > 1: return args[1]
            it.raise_py(KeyError, args[0])
        if name == "setdefault":
            if it.truth(dict_contains(it, o, args[0])): return dict_get(it, o, args[0])
            v = args[1] if len(args) > 1 else None
            dict_set(it, o, args[0], v); return v
        if name == "update":
            for src in args:
                if isinstance(src, MDict) and not src.symbolic:
                    for k, v in src.d.items(): dict_set(it, o, k.v if isinstance(k, KeyBox) else k, v)
                elif isinstance(src, MDict) or isinstance(src, Ext) and hasattr(src, "map_"):
                    dict_merge(it, o, *((src.dom, src.val) if isinstance(src, MDict) else src.map_(it)))
                elif isinstance(src, SVal):
                    h = getattr(it, "opaque_update", None)
                    if h: h(o, src); continue
                    raise Unsupported("dict.update with an opaque mapping")
                else:
                    for p in to_items(it, src):
                        k, v = it.unpack(p, 2); dict_set(it, o, k, v)
            for k, v in kwargs.items():
                if k == "**": raise Unsupported("update(**opaque)")
                dict_set(it, o, k, v)
            return None
        if name == "clear":
            ctx.touch(o); ctx.oplog.append((o, "clear")); o.d, o.dom, o.val, o.order = {}, None, None, None; return None
        if name == "copy":
            return MDict(ctx, None, o.dom, o.val, o.order) if o.symbolic else MDict(ctx, dict(o.d))
        if name == "__contains__": return dict_contains(it, o, args[0])
        if name == "__len__": return seq_len(it, o)
    elif isinstance(o, MSet):
        if name == "add": set_add(it, o, args[0]); return None
        if name in ("discard", "remove"):
            for i, x in enumerate(o.items):
                if it.truth(it.eq(x, args[0])):
                    ctx.touch(o); o.items = o.items[:i] + o.items[i + 1:]; return None
            if name == "remove": it.raise_py(KeyError, args[0])
            return None
        if name == "copy": return MSet(ctx, o.items)
    elif isinstance(o, Obj) or isinstance(o, SVal) and o.cls is not None and hasattr(o.cls, "model_fields"):
        if name in ("model_dump_json", "json"):
            m = it.models.get("model_dump_json")
            if m: return m(it, o)
            return it.val(z3.Function("dump_json", U, U)(obj_term(it, o)), str)
        if name in ("model_dump", "dict"):
            m = it.models.get("model_dump")
            if m: return m(it, o)
            return it.val(z3.Function("dump_dict", U, U)(obj_term(it, o)), dict)
    elif isinstance(o, SVal):
        m = it.attr_models.get((o.cls, "." + name))
        if m: return m(it, o, *args, **kwargs)
        if o.cls is dict and name == "get":
            t = z3.Function("has_key", U, U, B)(o.z, it.term(args[0]))
            if ctx.branch(t): return SVal(z3.Function("item_of", U, U, U)(o.z, it.term(args[0])), None, True)
            return args[1] if len(args) > 1 else None
        if o.cls is str and name in ("strip", "upper", "lower", "rstrip", "lstrip", "title", "replace"):
            f = z3.Function("str_" + name + str(len(args)), U, *([U] * len(args)), U)
            return it.val(f(o.z, *[it.term(a) for a in args]), str)
        if o.cls is str and name == "encode": return it.val(z3.Function("encode", U, U)(o.z), bytes)
        if o.cls is str and name in ("startswith", "endswith", "isdigit", "isupper", "isalpha"):
            f = z3.Function("str_" + name + str(len(args)), U, *([U] * len(args)), B)
            return SBool(f(o.z, *[it.term(a) for a in args]))
        if o.cls is bytes and name == "decode":
            return it.val(z3.Function("decode", U, U)(o.z), str)
        if o.cls is str and name == "split":
            raise Unsupported("split of an opaque string")
        raise Unsupported(f"method {name} of {o!r}")
    elif isinstance(o, SInt):
        m = it.models.get(("int", name))
        if m: return m(it, o, *args, **kwargs)
        raise Unsupported(f"int.{name}")
    elif isinstance(o, (str, bytes)) and name == "join":
        l = to_list(it, args[0])
        if not l.symbolic:
            out = []
            for i, x in enumerate(l.items):
                if i: out.append(o)
                out.append(x)
            if isinstance(o, bytes):
                r = b""
                for x in out: r = binop(it, "Add", r, x)
                return r
            return it.concat(out) if out else ""
    if isinstance(o, str) and name == "format": 
        if not is_plain(tuple(args)): return it.val(z3.Function("format", U, *([U] * len(args)), U)(it.term(o), *[it.term(a) for a in args]), str)
    if is_plain(o):
        if not all(is_plain(a) for a in args) or not all(is_plain(a) for a in kwargs.values()):
            raise Unsupported(f"method {name} of {type(o).__name__} on symbolic arguments")
        if not isinstance(o, (str, bytes, int, float, tuple)) and type(o).__module__ not in ("uuid", "re", "datetime"):
            raise Unsupported(f"method {name} of external object {type(o).__name__}")
        try:
            return it.wrap(getattr(to_native(o), name)(*[to_native(a) for a in args], **{k: to_native(a) for k, a in kwargs.items()}))
        except Exception as e:
            it.raise_py(type(e), *[str(x) for x in e.args])
    raise Unsupported(f"method {name} of {o!r}")


def obj_term(it, o):
    """Structural term of a pydantic object."""
    if isinstance(o, SVal): return o.z
    if isinstance(o, Obj) and hasattr(o.cls, "model_fields"):
        m = it.attr_models.get((o.cls, "__term__"))
        if m: return m(it, o)
        names = list(o.cls.model_fields)
        f = z3.Function("mk_" + o.cls.__name__, *([U] * len(names)), U)
        return f(*[obj_term(it, o.fields[n]) for n in names]) if names else it.ctx.const("mk_" + o.cls.__name__)
    return it.term(o)


# ---------------------------------------------------------------- builtin functions and types
def builtin(it, fn, args, kwargs):
    ctx = it.ctx
    name = getattr(fn, "__name__", "")
    if getattr(fn, "__module__", None) not in ("builtins",): return NOPE
    if fn is len: return seq_len(it, args[0])
    if fn is format and len(args) == 2 and isinstance(args[1], str) and not kwargs: return it.format_(args[0], args[1])
    if fn is isinstance: return isinstance_(it, args[0], args[1])
    if fn is issubclass and all(is_plain(a) for a in args): return issubclass(*[to_native(a) for a in args])
    if fn is range:
        if all(isinstance(a, int) for a in args): return range(*args)
        a = [SInt(it.z(x)) for x in args]
        lo, hi, st = (z3.IntVal(0), a[0].z, 1) if len(a) == 1 else (a[0].z, a[1].z, args[2] if len(a) == 3 else 1)
        if st == 1:
            n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
            return MList(ctx, None, n, lambda i: SInt(z3.simplify(lo + i)))
        if st == -1:
            n = z3.simplify(z3.If(hi < lo, lo - hi, 0))
            return MList(ctx, None, n, lambda i: SInt(z3.simplify(lo - i)))
        raise Unsupported("range step")
    if fn is list:
        return to_list(it, args[0]) if args else MList(ctx, [])
    if fn is tuple:
        if not args: return ()
        l = to_list(it, args[0])
        return l if l.symbolic else tuple(l.items)
    if fn is dict:
        d = MDict(ctx, {})
        if args: call_method(it, d, "update", args, {})
        call_method(it, d, "update", [], kwargs)
        return d
    if fn in (set, frozenset):
        return make_set(it, to_items(it, args[0])) if args else MSet(ctx, [])
    if fn is reversed:
        l = to_list(it, args[0])
        if not l.symbolic: return MList(ctx, l.items[::-1])
        n, g = l.n, l.get
        return MList(ctx, None, n, lambda i: g(z3.simplify(n - 1 - i)))
    if fn is enumerate:
        l = to_list(it, args[0])
        st = args[1] if len(args) > 1 else kwargs.get("start", 0)
        if not l.symbolic: return MList(ctx, [(binop(it, "Add", st, i), x) for i, x in enumerate(l.items)])
        g = l.get
        return MList(ctx, None, l.n, lambda i: (SInt(i + it.z(st)), g(i)))
    if fn is zip:
        ls = [to_list(it, a) for a in args]
        if all(not l.symbolic for l in ls): return MList(ctx, [tuple(t) for t in zip(*[l.items for l in ls])])
        raise Unsupported("zip of symbolic sequences")
    if fn is iter: return to_list(it, args[0])
    if fn is next:
        l = args[0]
        if isinstance(l, MList):
            if not it.truth(l):
                if len(args) > 1: return args[1]
                it.raise_py(StopIteration)
            return list_pop(it, l, 0)
        raise Unsupported("next")
    if fn in (any, all):
        l = to_list(it, args[0])
        if l.symbolic: raise Unsupported("any/all over a symbolic sequence")
        for x in l.items:
            t = it.truth(x)
            if fn is any and t: return True
            if fn is all and not t: return False
        return fn is all
    if fn in (min, max) and not kwargs:
        items = list(args) if len(args) > 1 else to_items(it, args[0])
        if all(is_plain(x) for x in items): return NOPE if len(args) > 1 else fn(items)
        r = items[0]
        for x in items[1:]:
            c = compare(it, "Lt" if fn is min else "Gt", x, r)
            r = ite(it, c if isinstance(c, bool) else c.z, x, r)
        return r
    if fn is sum and not kwargs:
        l = to_list(it, args[0])
        if l.symbolic: raise Unsupported("sum of a symbolic sequence")
        r = args[1] if len(args) > 1 else 0
        for x in l.items: r = binop(it, "Add", r, x)
        return r
    if fn is sorted and not kwargs:
        l = to_list(it, args[0])
        if is_plain(l): return MList(ctx, sorted(to_native(l)))
        m = it.models.get(sorted)
        if m: return m(it, args[0])
        raise Unsupported("sorted")
    if fn is str: return it.str_(args[0]) if args else ""
    if fn is repr:
        return it.val(z3.Function("repr_of", U, U)(it.term(args[0])), str) if not is_plain(args[0]) else repr(to_native(args[0]))
    if fn is bool: return it.truth(args[0]) if args else False
    if fn is int:
        v = args[0] if args else 0
        if isinstance(v, SInt): return v
        if isinstance(v, SBool): return SInt(z3.If(v.z, 1, 0))
        if isinstance(v, SVal):
            m = it.models.get(("int()", v.cls)) or it.models.get("int()")
            if m: return m(it, *args)
            if v.cls is int: return SInt(u2int(v.z))
            raise Unsupported("int() of an opaque value")
        if isinstance(v, Ext):
            m = it.models.get(("int()", type(v)))
            if m: return m(it, *args, **kwargs)
        return NOPE
    if fn is float:
        v = args[0]
        if isinstance(v, (SInt,)): return v
        if isinstance(v, SVal) and v.cls is float: return v
        if isinstance(v, SVal) and getattr(it, "opaque_arith", False): return SVal(z3.Function("float_of", U, U)(v.z), float)
        return NOPE
    if fn is bytes and args and isinstance(args[0], SVal): return args[0]
    if fn is abs and isinstance(args[0], SInt): return SInt(z3.If(args[0].z < 0, -args[0].z, args[0].z))
    if fn is getattr:
        if not isinstance(args[1], str): raise Unsupported("getattr name")
        if len(args) == 3:
            try: return it.getattr(args[0], args[1])
            except PyExc as e:
                if it.exc_match(e.val, AttributeError): return args[2]
                raise
        return it.getattr(args[0], args[1])
    if fn is hasattr:
        try: it.getattr(args[0], args[1]); return True
        except PyExc as e:
            if it.exc_match(e.val, AttributeError): return False
            raise
    if fn is setattr: it.setattr(*args); return None
    if fn is type and len(args) == 1: return it.type_of(args[0])
    if fn is callable: 
        v = args[0]
        if isinstance(v, (Closure, BoundMethod, ModelFn, NativeMethod)): return True
        return NOPE
    if fn is hash:
        f = None
        v = args[0]
        if isinstance(v, (Obj,)) :
            f = it.lookup(v.cls, "__hash__")
            if f is not None: return it.call(BoundMethod(f, v), [], {})
        if isinstance(v, tuple) and v:
            return SInt(z3.Function(f"hash_tuple{len(v)}", *([I] * len(v)), I)(*[it.z(builtin(it, hash, [x], {})) for x in v]))
        if isinstance(v, (MList, MDict, MSet)): it.raise_py(TypeError, "unhashable type")
        return SInt(z3.Function("hash_of", U, I)(it.term(v)))
    if fn is id: return SInt(z3.Function("id_of", U, I)(it.term(args[0])))
    if fn is print: return None
    if fn is filter or fn is map:
        l = to_list(it, args[1])
        if fn is map and l.symbolic:
            from . import loops
            return loops.map_symbolic(it, lambda x: it.call(args[0], [x], {}), l)
        if l.symbolic:
            from . import loops
            return loops.map_symbolic(it, lambda x: x if it.truth(it.call(args[0], [x], {}) if args[0] is not None else x) else loops.SKIP, l)
        if fn is map: return MList(ctx, [it.call(args[0], [x], {}) for x in l.items])
        return MList(ctx, [x for x in l.items if it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)])
    return NOPE


def isinstance_(it, v, c):
    if isinstance(c, tuple): 
        r = False
        for x in c:
            q = isinstance_(it, v, x)
            if q is True: return True
            if q is not False: r = q if r is False else SBool(z3.Or(r.z, q.z))
        return r
    if not isinstance(c, type): raise Unsupported("isinstance")
    if isinstance(v, UExc): return it.exc_match(v, c)
    if isinstance(v, SVal):
        if v.cls is not None:
            if issubclass(v.cls, c): return SBool(v.z != NONE) if v.nullable else True
            if c is type(None): return SBool(v.z == NONE) if v.nullable else False
            if not issubclass(c, v.cls): return False
        r = z3.Function("isinstance_" + c.__name__, U, B)(v.z)
        it.ctx.assume(z3.Implies(v.z == NONE, r == (c is type(None))))
        return SBool(r)
    t = it.type_of(v)
    if isinstance(v, (Closure, BoundMethod, ModelFn, NullLog, DictView)): return False
    if isinstance(v, Ext):
        return v.pycls is not None and issubclass(v.pycls, c)
    return issubclass(t, c) if isinstance(t, type) else False
