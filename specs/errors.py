"""Contracts of the error states (C14): a table of keepers by code, in order of first occurrence."""
import json
import z3
from dv.core import *
from dv.interp import Interp, BoundMethod, MDict
from dv.methods import symbolize
from .lru import FieldFn

CODE_AT, POS = z3.Function("code_at", I, U), z3.Function("code_position", U, I)
KEEPER, OLD = z3.Function("keeper_of", U, U), z3.Function("old_keeper", U, B)
UPPER = z3.Function("str_upper0", U, U)
PID, PDESC = "PROBE-CODE", "probe description"


def mods():
    from ekosis.state_keepers import error_state_list as l, error_state_keeper as k
    return l.ErrorStateList, k.ErrorStateKeeper


def find_table(it, o, pred):
    """The one dict of the object (or of its class) whose values satisfy pred."""
    cands = [v for v in list(o.fields.values()) if isinstance(v, MDict)]
    for c in o.cls.__mro__:
        for v in list(vars(c).values()):
            if type(v) is dict and id(v) in it.ctx.memo: cands.append(it.ctx.memo[id(v)][1])
    hits = []
    for d in cands:
        if not d.symbolic and any(pred(k, v) for k, v in d.d.items()) and d not in hits: hits.append(d)
    if len(hits) != 1: raise Unsupported("the entries are not kept in one dictionary")
    return hits[0]


class Heap(Ext):
    """Fields of all keepers as functions of the keeper."""
    def install(self, it, cls, sorts):
        for f, so in sorts.items():
            self.st[f] = FieldFn(z3.Function("keeper" + f, U, so))
            it.attr_models[(cls, f)] = lambda it, n, f=f: self.read(it, f, n.z)
            it.setattr_models[(cls, f)] = lambda it, n, v, f=f: self.set(f, self.st[f].put(n.z, self.enc(it, f, v)))
        self.sorts, self.cls = sorts, cls
        def new(it, *a, **k):
            n = SVal(self.ctx.fresh_u("new_keeper"), cls)
            self.ctx.assume(z3.And(n.z != NONE, z3.Not(OLD(n.z))))
            for o in self.st.get("fresh", ()): self.ctx.assume(n.z != o)
            self.set("fresh", self.st.get("fresh", ()) + (n.z,))
            it.call(BoundMethod(it.lookup(cls, "__init__"), n), list(a), k)
            return n
        it.models[cls] = new
    def enc(self, it, f, v):
        if self.sorts[f] == I:
            if isinstance(v, bool) or not isinstance(v, (int, SInt)): raise Unsupported("count is not a number")
            return it.z(v)
        return it.term(v)
    def read(self, it, f, n):
        t = self.st[f].get(n)
        return SInt(t) if self.sorts[f] == I else SVal(t, str)


class State:
    """Any table of error states satisfying the invariant."""
    def __init__(self, ctx):
        ESL, ESK = mods()
        self.ctx = ctx
        it = self.it = Interp(ctx)
        self.list = it.singletons[ESL] = it.call(ESL, [], {})
        it.call(it.getattr(self.list, "increment"), [PID, PDESC], {})
        t = self.table = find_table(it, self.list, lambda k, v: isinstance(v, Obj) and v.cls is ESK)
        (pk, pv), = t.d.items()
        ctx.oblige("a new error state is kept under its code with its description and counted once", pk == PID and sorted(map(repr, pv.fields.values())) == sorted(map(repr, [PID, PDESC, 1])), repr(pv.fields))
        role = {}
        for f, v in pv.fields.items():
            if v == PID: role["id"] = f
            elif v == PDESC: role["desc"] = f
            elif type(v) is int: role["count"] = f
            else: raise Unsupported("an error state has other fields than the contract")
        if len(role) != 3: raise Unsupported("an error state has other fields than the contract")
        self.role = role
        self.heap = Heap(ctx)
        self.heap.install(it, ESK, {role["id"]: U, role["desc"]: U, role["count"]: I})
        self.f0 = {r: self.heap.st[f].get for r, f in role.items()}
        self.n = n = ctx.fresh_int("codes")
        ctx.small.append(n)
        ctx.assume(n >= 0)
        i, x = z3.Int("i!e"), z3.Const("x!e", U)
        self.dom0 = lambda x: z3.And(POS(x) >= 0, POS(x) < n, CODE_AT(POS(x)) == x)
        A = ctx.assume
        A(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(POS(CODE_AT(i)) == i, CODE_AT(i) != NONE, UPPER(CODE_AT(i)) == CODE_AT(i))), patterns=[CODE_AT(i)]))
        A(z3.ForAll([x], UPPER(UPPER(x)) == UPPER(x), patterns=[UPPER(x)]))
        A(z3.ForAll([x], z3.Implies(self.dom0(x), z3.And(OLD(KEEPER(x)), KEEPER(x) != NONE, self.f0["id"](KEEPER(x)) == x, self.f0["count"](KEEPER(x)) >= 0)), patterns=[KEEPER(x)]))
        ctx.touch(t)
        t.d, t.dom, t.val = None, self.dom0, (lambda x: SVal(KEEPER(x), ESK))
        t.order = MList(ctx, None, n, lambda i: SVal(CODE_AT(i), str))

    # abstract state before the operation
    def count(self, c): return z3.If(self.dom0(c), self.f0["count"](KEEPER(c)), 0)
    def desc(self, c): return self.f0["desc"](KEEPER(c))
    def code(self, name="code"):
        c = SVal(self.ctx.fresh_u(name), str)
        self.ctx.assume(c.z != NONE)
        return c

    def after(self, dom2, count2, desc2):
        """The table now holds exactly the codes of dom2 with these counts and descriptions."""
        ctx, t, h = self.ctx, self.table, self.heap
        if not t.symbolic: raise Unsupported("the table is replaced")
        x = ctx.fresh_u("some_code")
        ctx.assume(UPPER(x) == x)
        self.dom0(x), self.count(x)
        ctx.oblige("the table holds exactly the codes that have been set", t.dom(x) == dom2(x))
        v = t.val(x)
        if not (isinstance(v, SVal) and v.cls is mods()[1]): raise Unsupported("table entry")
        f = {r: h.st[n].get for r, n in self.role.items()}
        ctx.oblige("every code has the right count, other codes are not affected", z3.Implies(dom2(x), f["count"](v.z) == count2(x)))
        ctx.oblige("no count is negative", z3.Implies(dom2(x), f["count"](v.z) >= 0))
        ctx.oblige("every code keeps its first description", z3.Implies(dom2(x), f["desc"](v.z) == desc2(x)))
        ctx.oblige("every entry carries its own code", z3.Implies(dom2(x), f["id"](v.z) == x))
        y = ctx.fresh_u("other_code")
        ctx.assume(UPPER(y) == y)
        # the order lists exactly the codes of the table, each once
        o = t.order
        if o is None: raise Unsupported("the order of the table is not known")
        i = ctx.fresh_int("i")
        ctx.assume(z3.And(i >= 0, i < o.n))
        ctx.oblige("order: only codes of the table", dom2(self.it.term(o.get(i))), rep=True)
        return f

    def same(self): return self.after(self.dom0, self.count, self.desc)


def call(st, o, name, *a):
    it = st.it
    try: return ("ok", it.call(it.getattr(o, name), list(a), {}))
    except PyExc as e: return ("raise", e.val)


def increment(ctx):
    st = State(ctx)
    c, d = st.code(), SVal(ctx.fresh_u("description"), str)
    how, _ = call(st, st.list, "increment", c, d)
    ctx.oblige("setting an error does not fail", how == "ok", repr(_))
    if how != "ok": return
    S = UPPER(c.z)
    st.after(lambda x: z3.Or(x == S, st.dom0(x)), lambda x: st.count(x) + z3.If(x == S, 1, 0), lambda x: z3.If(z3.And(x == S, z3.Not(st.dom0(x))), d.z, st.desc(x)))


def clear_some(ctx):
    st = State(ctx)
    c, k = st.code(), ctx.fresh_int("how_many")
    how, _ = call(st, st.list, "clear_some", c, SInt(k))
    ctx.oblige("clearing does not fail", how == "ok", repr(_))
    if how != "ok": return
    S = UPPER(c.z)
    left = lambda x: z3.If(k <= 0, st.count(x), z3.If(st.count(x) > k, st.count(x) - k, 0))
    st.after(st.dom0, lambda x: z3.If(x == S, left(x), st.count(x)), st.desc)


def clear_all(ctx):
    st = State(ctx)
    c = st.code()
    how, _ = call(st, st.list, "clear_all", c)
    ctx.oblige("clearing does not fail", how == "ok", repr(_))
    if how != "ok": return
    st.after(st.dom0, lambda x: z3.If(x == UPPER(c.z), 0, st.count(x)), st.desc)


def has(ctx):
    st = State(ctx)
    c = st.code()
    how, v = call(st, st.list, "has_error_id", c)
    ctx.oblige("asking does not fail", how == "ok", repr(v))
    if how != "ok": return
    ctx.oblige("a code is known exactly when it has been set", (z3.BoolVal(v) if isinstance(v, bool) else v.z) == st.dom0(UPPER(c.z)))
    st.same()


def check_listing(st, n, entry, f, dom, count, desc):
    """entry(i) -> (code, description, count) of the i-th listed; complete, each once, truthful."""
    ctx = st.ctx
    i, j = ctx.fresh_int("i"), ctx.fresh_int("j")
    ctx.assume(z3.And(i >= 0, i < n))
    c, d, k = entry(i)
    ctx.oblige("only codes whose count is above zero are listed", z3.And(dom(c), count(c) > 0))
    ctx.oblige("each code is listed with its count", k == count(c))
    ctx.oblige("each code is listed with its first description", d == desc(c))
    c2 = entry(j)[0]
    ctx.oblige("each code is listed once", z3.Implies(z3.And(j >= 0, j < n, j != i), c != c2))


def check_complete(st, n, entry, dom, count):
    ctx = st.ctx
    x = ctx.fresh_u("set_code")
    ctx.assume(z3.And(dom(x), count(x) > 0))
    j = z3.Int(ctx.name("j"))
    q = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), entry(j)[0] != x))
    ctx.ranged[q.get_id()] = q
    ctx.assume(q)
    ctx.oblige("every code whose count is above zero is listed", False)


def listing(how):
    """get_error_states (keepers), to_json / str (documents), the two endpoints."""
    def task(ctx):
        st = State(ctx); it = st.it
        docs = []
        def dumps(it, v, *a, **k):
            docs.append(v)
            return SVal(ctx.fresh_u("json_text"), str)
        it.models[json.dumps] = dumps
        dom, count = st.dom0, st.count
        if how == "states": r, v = call(st, st.list, "get_error_states")
        elif how == "json":
            r, v = call(st, st.list, "to_json")
            if r == "ok":
                if len(docs) != 1: raise Unsupported("the document is not dumped once")
                v = docs[0]
        else:
            route = "eco.error_states." + how
            fn, T = endpoint_fn("ekosis.standard_endpoints.errors", route)
            fields = {}
            if how == "clear":
                c, k = st.code(), ctx.fresh_int("count")
                fields = {"error_id": c, "count": SInt(k)}
                S = UPPER(c.z)
                left = lambda x: z3.If(k < 0, st.count(x), z3.If(k == 0, 0, z3.If(st.count(x) > k, st.count(x) - k, 0)))
                count = lambda x: z3.If(z3.And(x == S, st.dom0(x)), left(x), st.count(x))
            if set(fields) != set(T.model_fields): raise Unsupported("the request has other fields than the contract")
            dto = Obj(ctx, T, fields)
            try: r, v = "ok", it.await_(it.call(fn, [], {"dto": dto}))
            except PyExc as e: r, v = "raise", e.val
            if r == "ok":
                ok = isinstance(v, Obj) and "errors" in v.fields
                ctx.oblige("the answer lists the errors", ok, repr(v))
                if not ok: return
                v = v.fields["errors"]
        ctx.oblige("listing does not fail", r == "ok", repr(v) + str(getattr(v, "fields", "")))
        if r != "ok": return
        if not isinstance(v, MList): raise Unsupported("the listing is not a list")
        f = st.after(dom, count, st.desc)
        symbolize(it, v)
        def entry(i):
            e = v.get(i)
            if how == "states":
                if not (isinstance(e, SVal) and e.cls is mods()[1]): raise Unsupported("listed entry")
                return f["id"](e.z), f["desc"](e.z), f["count"](e.z)
            if not isinstance(e, MDict) or e.symbolic: raise Unsupported("listed entry")
            if set(e.d) != {"error_id", "description", "count"}: ctx.oblige("a listed entry has code, description and count", False, repr(list(e.d))); raise PathEnd()
            return it.term(e.d["error_id"]), it.term(e.d["description"]), it.z(e.d["count"])
        if z3.is_int_value(z3.simplify(v.n)) and z3.simplify(v.n).as_long() == 0:
            return check_complete(st, v.n, lambda i: (NONE,), dom, count)
        if ctx.choose("complete"): return check_complete(st, v.n, entry, dom, count)
        check_listing(st, v.n, entry, f, dom, count, st.desc)
    return task


def endpoint_fn(module, route):
    """The function and request type registered for a route."""
    import importlib
    from ekosis.requests.request_router import RequestRouter
    importlib.import_module(module)
    r = RequestRouter()
    for d in list(vars(r).values()) + list(vars(type(r)).values()):
        if isinstance(d, dict) and route in d:
            h = d[route]
            if not callable(getattr(h, "function", None)): break
            return h.function, h.request_dto_type
    raise Unsupported(f"no endpoint function registered for {route}")
