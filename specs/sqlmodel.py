"""Assumed contract of the SQL store (SQLAlchemy session over one SQLite table).

State: the table as a sequence of rows in increasing record id order (n, rid, key, data), plus the
committed copy.  Every operation the queue uses has an exact sequence semantics; a statement outside
this set is Unsupported (never silently approximated)."""
import z3
from dv.core import *
from dv.interp import ModelFn, Star
from dv import methods
from dv.methods import ite, to_list

bytes_of = z3.Function("bytes_of_spankey", U, U)
key_of = z3.Function("spankey_of_bytes", U, U)
str_of_key = z3.Function("str_of_spankey", U, U)


class Rows:
    """Immutable symbolic row sequence."""
    def __init__(self, n, rid, key, data):
        self.n, self.rid, self.key, self.data = n, rid, key, data


EMPTY = lambda: Rows(z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: NONE, lambda i: NONE)


class Db(Ext):
    """rows: what a statement sees; committed: what survives a close; pending: deferred deletes."""
    def rows(self): return self.st["rows"]


class Col(Ext):
    def eq_(self, it, other): return Cond(it.ctx, col=self.st["name"], op="==", val=other)
    def compare_(self, it, op, other):
        return Cond(it.ctx, col=self.st["name"], op={"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[op], val=other)
    def m_in_(self, it, ids): return Cond(it.ctx, col=self.st["name"], op="in", val=ids)
    def m_asc(self, it): return Order(it.ctx, col=self.st["name"], desc=False)
    def m_desc(self, it): return Order(it.ctx, col=self.st["name"], desc=True)


class Cond(Ext): pass
class Order(Ext): pass
class Agg(Ext): pass
class Exists(Ext):
    def m_where(self, it, c): return Exists(it.ctx, cond=c)


class FuncGen(Ext):
    def m_max(self, it, c): return Agg(it.ctx, fn="max", col=c)
    def m_min(self, it, c): return Agg(it.ctx, fn="min", col=c)
    def m_count(self, it, *c): return Agg(it.ctx, fn="count", col=None)


class TableExt(Ext):
    def g_c(self, it): return self
    def getattr_(self, it, name):
        if name in ("record_id", "span_key", "object_string"): return Col(it.ctx, name=name)
        raise Unsupported(f"table column {name}")


def rec_obj(it, world, rows, i):
    from ekosis.queues import paginated_queue as pq
    o = Obj(it.ctx, pq.QueueRecord, {
        "record_id": SInt(rows.rid(i)),
        "span_key": SVal(bytes_of(rows.key(i)), bytes),
        "object_string": SVal(rows.data(i), str),
        "_row": SInt(i)}, frozen=True)
    return o


class Query(Ext):
    def _new(self, **kw):
        st = dict(self.st); st.update(kw)
        return Query(self.ctx, **st)

    def m_order_by(self, it, o):
        if isinstance(o, Col): o = Order(it.ctx, col=o.st["name"], desc=False)
        if not isinstance(o, Order) or o.st["col"] != "record_id": raise Unsupported("order by")
        return self._new(order=o.st["desc"])

    def m_limit(self, it, n): return self._new(limit=n)
    def m_with_entities(self, it, *a): raise Unsupported("with_entities")

    def m_filter(self, it, *cs):
        return self._new(conds=self.st.get("conds", ()) + tuple(cs))
    m_where = m_filter

    def m_filter_by(self, it, **kw):
        return self._new(conds=self.st.get("conds", ()) + tuple(Cond(it.ctx, col=k, op="==", val=v) for k, v in kw.items()))

    # -- evaluation
    def _db(self): return self.st["db"]

    def _only_key(self, it):
        cs = self.st.get("conds", ())
        if len(cs) == 1 and isinstance(cs[0], Cond) and cs[0].st["col"] == "span_key" and cs[0].st["op"] == "==":
            return key_of(it.term(cs[0].st["val"]))
        raise Unsupported("query condition")

    def _find(self, it, k):
        """branch on the presence of key k; position if present"""
        rows, world = self._db().rows(), self._db().st["world"]
        p = world.db_pos(it, rows, k)
        return p

    def m_count(self, it):
        if not self.st.get("conds"):
            if "limit" in self.st: raise Unsupported("limited count")
            return SInt(self._db().rows().n)
        p = self._find(it, self._only_key(it))
        return 0 if p is None else 1

    def m_one(self, it):
        from sqlalchemy.exc import NoResultFound
        p = self._find(it, self._only_key(it))
        if p is None: it.raise_py(NoResultFound)
        return rec_obj(it, self._db().st["world"], self._db().rows(), p)

    def m_one_or_none(self, it):
        p = self._find(it, self._only_key(it))
        return None if p is None else rec_obj(it, self._db().st["world"], self._db().rows(), p)

    def m_first(self, it):
        if self.st.get("conds"): return self.m_one_or_none(it)
        if self.st.get("order") is None: raise Unsupported("first without order")
        l = self._new(limit=1).m_all(it)
        return l.get(z3.IntVal(0)) if it.ctx.branch(l.n > 0) else None

    def m_scalar(self, it):
        t, rows = self.st["target"], self._db().rows()
        if isinstance(t, Exists):
            c = t.st["cond"]
            q = Query(it.ctx, db=self._db(), target=None, conds=(c,))
            p = q._find(it, q._only_key(it))
            return p is not None
        if isinstance(t, Agg) and not self.st.get("conds"):
            if t.st["fn"] == "count": return SInt(rows.n)
            c = t.st["col"]
            if not isinstance(c, Col) or c.st["name"] != "record_id": raise Unsupported("aggregate")
            if not it.ctx.branch(rows.n > 0): return None
            return SInt(rows.rid(z3.IntVal(0)) if t.st["fn"] == "min" else rows.rid(rows.n - 1))
        raise Unsupported("scalar query")

    def m_all(self, it):
        rows, world = self._db().rows(), self._db().st["world"]
        if self.st.get("conds"): raise Unsupported("filtered select")
        n = rows.n
        if self.st.get("order") is None: raise Unsupported("select without order")
        if "limit" in self.st and self.st["limit"] is not None:
            lim = it.z(self.st["limit"])
            n = z3.simplify(z3.If(lim < 0, rows.n, z3.If(lim < rows.n, lim, rows.n)))
        if self.st["order"]:
            return MList(it.ctx, None, n, lambda i: rec_obj(it, world, rows, z3.simplify(rows.n - 1 - i)))
        return MList(it.ctx, None, n, lambda i: rec_obj(it, world, rows, z3.simplify(i)))
    def iter_(self, it): return self.m_all(it)

    def m_delete(self, it, synchronize_session=None):
        db = self._db()
        rows, ctx = db.rows(), it.ctx
        cs = self.st.get("conds", ())
        if not cs:
            db.set("rows", EMPTY()); return SInt(rows.n)
        if len(cs) != 1: raise Unsupported("delete with several conditions")
        c = cs[0].st
        if c["col"] == "span_key" and c["op"] == "==":
            p = self._find(it, self._only_key(it))
            if p is not None: db.set("rows", remove_row(rows, p))
            return 0 if p is None else 1
        if c["col"] == "record_id" and c["op"] == "in":
            ids = to_list(it, c["val"])
            methods.symbolize(it, ids)
            m, j = ids.n, ctx.fresh_int("j")
            if not ctx.prove_quick(m > 0):
                if ctx.branch(m <= 0): return 0
            g = lambda i: it.z(ids.get(i))
            rng = z3.And(j >= 0, j < m)
            ok = lambda f: ctx.prove_quick(z3.And(m <= rows.n, z3.Implies(rng, f)), 4000)
            if ok(g(j) == rows.rid(j)) or ok(g(j) == rows.rid(m - 1 - j)):
                db.set("rows", Rows(z3.simplify(rows.n - m), lambda i: rows.rid(i + m), lambda i: rows.key(i + m), lambda i: rows.data(i + m)))
            elif ok(g(j) == rows.rid(rows.n - 1 - j)) or ok(g(j) == rows.rid(rows.n - m + j)):
                db.set("rows", Rows(z3.simplify(rows.n - m), rows.rid, rows.key, rows.data))
            else: raise Unsupported("delete of record ids that are neither a prefix nor a suffix")
            return SInt(m)
        if c["col"] == "record_id" and c["op"] in (">", "<", "==", ">=", "<=", "!=") and isinstance(c["val"], int):
            # sequence of range deletes (clear): the surviving rows are those not matched
            rest = rows.__dict__.get("excluded", ()) + ((c["op"], c["val"]),)
            x = z3.Int(ctx.name("x"))
            m = lambda v: z3.Or(*[{">": v > b, "<": v < b, "==": v == b, ">=": v >= b, "<=": v <= b, "!=": v != b}[o] for o, b in rest])
            if ctx.prove_quick(m(x)):
                db.set("rows", EMPTY())
            else:
                base = rows.__dict__.get("base", rows)
                bad = Rows(ctx.fresh_int("nsub"), _unk, _unk, _unk)
                bad.excluded, bad.base = rest, base
                ctx.assume(z3.And(bad.n >= 0, bad.n <= rows.n))
                db.set("rows", bad)
            return SInt(ctx.fresh_int("deleted"))
        raise Unsupported("delete condition")


def _unk(i): raise Unsupported("row of a partially cleared table")


def remove_row(rows, p):
    f = lambda g: (lambda i: z3.If(i < p, g(i), g(i + 1)))
    return Rows(z3.simplify(rows.n - 1), f(rows.rid), f(rows.key), f(rows.data))


class Session(Ext):
    def m_query(self, it, target):
        if isinstance(target, Col): raise Unsupported("column query")
        return Query(it.ctx, db=self.st["db"], target=target)

    def m_delete(self, it, rec):
        if self.st["pending"] is not None: raise Unsupported("two deferred deletes")
        self.set("pending", rec)

    def m_flush(self, it):
        rec, db = self.st["pending"], self.st["db"]
        if rec is not None:
            p = it.z(rec.fields["_row"])
            # the row must still be at this position: rows unchanged since the read
            if not it.ctx.prove_quick(z3.And(p >= 0, p < db.rows().n, db.rows().key(p) == key_of(it.term(rec.fields["span_key"])))):
                raise Unsupported("deferred delete of a moved row")
            db.set("rows", remove_row(db.rows(), p))
            self.set("pending", None)

    def m_commit(self, it):
        self.m_flush(it)
        self.st["db"].set("committed", self.st["db"].rows())

    def m_rollback(self, it):
        self.set("pending", None)
        self.st["db"].set("rows", self.st["db"].st["committed"])

    def m_close(self, it):
        self.set("pending", None)
        self.st["db"].set("rows", self.st["db"].st["committed"])

    def m_add(self, it, rec): self.m_bulk_save_objects(it, MList(it.ctx, [rec]))
    def m_add_all(self, it, recs): self.m_bulk_save_objects(it, recs)

    def m_bulk_save_objects(self, it, recs):
        ctx, db = it.ctx, self.st["db"]
        rows = db.rows()
        l = to_list(it, recs)
        methods.symbolize(it, l)
        m, g = l.n, l.get
        if not ctx.prove_quick(m > 0):
            if ctx.branch(m <= 0): return None
        j, j2 = ctx.fresh_int("j"), ctx.fresh_int("j")
        rid = lambda i: it.z(g(i).fields["record_id"])
        key = lambda i: key_of(it.term(g(i).fields["span_key"]))
        data = lambda i: it.term(g(i).fields["object_string"])
        inr = z3.And(j >= 0, j < m, j2 > j, j2 < m)
        one = z3.And(j >= 0, j < m)
        ok = lambda f: ctx.prove_quick(f, 4000)
        inc = ok(z3.Implies(inr, rid(j) < rid(j2)))
        dec = not inc and ok(z3.Implies(inr, rid(j) > rid(j2)))
        if not inc and not dec: raise Unsupported("inserted record ids are not monotone")
        if dec: f = lambda h: (lambda i: h(m - 1 - i))
        else: f = lambda h: h
        r2, k2, d2 = f(rid), f(key), f(data)
        after = ok(z3.Implies(z3.And(one, rows.n > 0), rid(j) > rows.rid(rows.n - 1)))
        if after:
            c = lambda a, b: (lambda i: z3.If(i < rows.n, a(i), b(i - rows.n)))
            db.set("rows", Rows(z3.simplify(rows.n + m), c(rows.rid, r2), c(rows.key, k2), c(rows.data, d2)))
            return None
        before = ok(z3.Implies(z3.And(one, rows.n > 0), rid(j) < rows.rid(z3.IntVal(0))))
        if before:
            c = lambda a, b: (lambda i: z3.If(i < m, b(i), a(i - m)))
            db.set("rows", Rows(z3.simplify(rows.n + m), c(rows.rid, r2), c(rows.key, k2), c(rows.data, d2)))
            return None
        raise Unsupported("inserted record ids are interleaved with existing ones")


def install(it, world, db):
    """Bind SQLAlchemy's names to the store's contract."""
    import sqlalchemy, sqlalchemy.orm
    from sqlalchemy import asc, desc, exists, func, create_engine, Table, MetaData
    from sqlalchemy.orm import sessionmaker
    from ekosis.queues import paginated_queue as pq
    ctx = it.ctx
    for n in ("record_id", "span_key", "object_string"):
        ctx.overlay[(pq.QueueRecord, n)] = Col(ctx, name=n)
    it.value_override[id(func)] = FuncGen(ctx)
    def newrec(it, **kw):
        if set(kw) != {"record_id", "span_key", "object_string"}: raise Unsupported("QueueRecord fields")
        return Obj(it.ctx, pq.QueueRecord, dict(kw))
    it.models[pq.QueueRecord] = newrec
    it.models[asc] = lambda it, c: c.m_asc(it)
    it.models[desc] = lambda it, c: c.m_desc(it)
    it.models[exists] = lambda it, *a: Exists(it.ctx, cond=None) if not a else Exists(it.ctx, cond=a[0])
    it.models[create_engine] = lambda it, *a, **k: _Engine(it.ctx)
    it.models[MetaData] = lambda it, *a, **k: _Engine(it.ctx)
    it.models[Table] = lambda it, name, *a, **k: TableExt(it.ctx, name=name) if name == "queued_objects" else _uns("table " + str(name))
    def mk(it, *a, **k):
        if k.get("autoflush") is not False: raise Unsupported("session with autoflush")
        return ModelFn(lambda it: Session(it.ctx, db=db, pending=None), "sessionmaker()")
    it.models[sessionmaker] = mk
    it.value_override[id(pq.OrmBaseClass.metadata)] = _Engine(ctx)


def _uns(m): raise Unsupported(m)


class _Engine(Ext):
    def m_create_all(self, it, *a, **k): return None
    def m_dispose(self, it): return None
