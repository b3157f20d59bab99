"""Contracts of SpanId and SpanKey (C12)."""
import uuid
import z3
import pydantic
from pydantic_core import core_schema
from dv.core import *
from dv.interp import Interp, BoundMethod, Closure
from dv import strings
from dv.strings import SStr


def mods():
    from ekosis.data_transfer_objects import span_id, json_protocol
    return span_id, json_protocol


class Schema(Ext):
    """core_schema.no_info_plain_validator_function(validator, serialization=plain serializer)."""


def interp(ctx):
    si, jp = mods()
    it = strings.install(Interp(ctx))
    it.models[core_schema.no_info_plain_validator_function] = lambda it, f, *, serialization=None, **k: _schema(ctx, f, serialization, k)
    it.models[core_schema.plain_serializer_function_ser_schema] = lambda it, f, *, info_arg=False, **k: _ser(f, info_arg, k)
    for c in (jp.SpanKey,):
        d = c.__pydantic_decorators__
        if d.validators or d.field_validators or d.root_validators or d.field_serializers or d.model_serializers or d.model_validators or d.computed_fields:
            raise Unsupported("SpanKey has pydantic validators or serialisers of its own")
        if {n: f.annotation for n, f in c.model_fields.items()} != {"trace_id": uuid.UUID, "span_id": si.SpanId}: raise Unsupported("SpanKey has other fields than the contract")
        if c.model_config: raise Unsupported("SpanKey has a model configuration")
    def new_key(it, *a, **kw):
        if a or set(kw) != {"trace_id", "span_id"}: raise PyExc(Obj(ctx, pydantic.ValidationError, {"args": ()}))
        t = kw["trace_id"]
        if isinstance(t, SStr): t = parse_uuid(it, t)
        elif not (isinstance(t, SVal) and t.cls is uuid.UUID): raise Unsupported("trace_id of another type")
        return Obj(ctx, jp.SpanKey, {"trace_id": t, "span_id": validate(it, kw["span_id"])})
    it.models[jp.SpanKey] = new_key
    return it


def parse_uuid(it, t):
    return it.models[uuid.UUID](it, hex=t)


def _schema(ctx, f, ser, k):
    if k: raise Unsupported("validator options")
    return Schema(ctx, validator=f, ser=ser)


def _ser(f, info_arg, k):
    if info_arg or k: raise Unsupported("serialiser options")
    return ("ser", f)


def schema(it):
    si, _ = mods()
    s = it.call(it.getattr(si.SpanId, "__get_pydantic_core_schema__"), [si.SpanId, None], {})
    if not isinstance(s, Schema) or not isinstance(s.st["ser"], tuple): raise Unsupported("core schema of another shape")
    return s


def validate(it, v):
    """pydantic: ValueError and AssertionError of a validator become ValidationError (a ValueError)."""
    try: return it.call(schema(it).st["validator"], [v], {})
    except PyExc as e:
        if it.exc_match(e.val, (ValueError, AssertionError)): raise PyExc(Obj(it.ctx, pydantic.ValidationError, {"args": ()}))
        raise


def to_json(it, v): return it.call(schema(it).st["ser"][1], [v], {})


def some_id(it, name="v"):
    """An arbitrary span id: any object the constructor accepts for a 64-bit number."""
    si, _ = mods()
    n = it.ctx.fresh_int(name)
    it.ctx.assume(z3.And(n >= 0, n < 1 << 64))
    try: return n, it.call(si.SpanId, [], {"int_": SInt(n)})
    except PyExc as e:
        it.ctx.oblige("every 64-bit number makes a span id", False, repr(e.val)); raise PathEnd()


def some_key(it, name=""):
    _, jp = mods()
    t = strings.new_uuid(it.ctx, "trace" + name)
    n, s = some_id(it, "span" + name)
    try: return t.z, n, it.call(jp.SpanKey, [], {"trace_id": t, "span_id": s})
    except PyExc as e:
        it.ctx.oblige("every pair of ids makes a span key", False, repr(e.val)); raise PathEnd()


def value(it, s): return it.z(it.getattr(s, "value"))


def attempt(it, name, f):
    """f() must not raise."""
    try: r = f()
    except PyExc as e:
        it.ctx.oblige(name + " does not fail", False, repr(e.val)); raise PathEnd()
    it.ctx.oblige(name + " does not fail", True)
    return r


def tv(it, r):
    if isinstance(r, bool): return z3.BoolVal(r)
    if r is NotImplemented: return z3.BoolVal(False)
    return r.z


def id_roundtrip(ctx):
    si, _ = mods()
    it = interp(ctx)
    n, s = some_id(it)
    ctx.oblige("the value of a span id is the number given", value(it, s) == n)
    for form, kw in (("bytes", "bytes_"), ("hex", "hex_")):
        enc = attempt(it, f"encoding as {form}", lambda: it.getattr(s, form))
        back = attempt(it, f"decoding from {form}", lambda: it.call(si.SpanId, [], {kw: enc}))
        ctx.oblige(f"span id -> {form} -> span id gives the same value", value(it, back) == n)
        ctx.oblige(f"span id -> {form} -> span id compares equal", tv(it, it.eq(s, back)))
    enc = attempt(it, "text form", lambda: it.str_(s))
    back = attempt(it, "decoding from its text form", lambda: it.call(si.SpanId, [], {"hex_": enc}))
    ctx.oblige("span id -> text -> span id gives the same value", value(it, back) == n)
    doc = attempt(it, "serialising into a document", lambda: to_json(it, s))
    if isinstance(doc, SStr) and doc.pycls is bytes: ctx.oblige("the document form is text or a number", False)
    back = attempt(it, "reading from a document", lambda: validate(it, doc))
    ctx.oblige("span id -> document -> span id gives the same value", value(it, back) == n)
    ctx.oblige("a span id passes validation unchanged", value(it, attempt(it, "validation of a span id", lambda: validate(it, s))) == n)


def id_equality(ctx):
    it = interp(ctx)
    n, a = some_id(it, "v")
    m, b = some_id(it, "w")
    ctx.oblige("span ids are equal exactly when their values are", tv(it, it.eq(a, b)) == (n == m))
    h = lambda x: it.z(it.call(hash, [x], {}))
    ctx.oblige("equal span ids hash alike", z3.Implies(n == m, h(a) == h(b)))


def rejects(kind):
    """Constructing from an arbitrary value either fails or yields the span id of that value, in range."""
    def task(ctx):
        si, _ = mods()
        it = interp(ctx)
        if kind == "int":
            n = ctx.fresh_int("given"); arg, kw = SInt(n), "int_"
        elif kind == "bytes":
            arg, kw = strings.fresh(ctx, "given", bytes), "bytes_"
        else:
            arg, kw = strings.fresh(ctx, "given"), "hex_"
        via = ctx.choose("by_validation")
        try: s = validate(it, arg) if via else it.call(si.SpanId, [], {kw: arg})
        except PyExc as e:
            ctx.oblige("refused with an error", it.exc_match(e.val, Exception))
            if kind == "int": ctx.oblige("a 64-bit number is not refused", z3.Not(z3.And(n >= 0, n < 1 << 64)))
            if kind == "bytes": ctx.oblige("8 bytes are not refused", z3.Length(arg.z) != 8)
            return
        v = value(it, s)
        ctx.oblige("a span id is a 64-bit number", z3.And(v >= 0, v < 1 << 64))
        if kind == "int": ctx.oblige("the span id of a number is that number", v == n)
        if kind == "bytes": ctx.oblige("only 8 bytes make a span id, and encode back to themselves", z3.And(z3.Length(arg.z) == 8, it.getattr(s, "bytes").z == arg.z))
        if kind == "hex":
            strings.hex_laws(ctx, arg.z)
            ctx.oblige("only 16 characters that read as a number make a span id, of that number", z3.And(z3.Length(arg.z) == 16, strings.HEXOK(arg.z), v == strings.HEXINT(arg.z)))
    return task


def id_arguments(ctx):
    """Exactly one form has to be given."""
    si, _ = mods()
    it = interp(ctx)
    args = {}
    if ctx.choose("i"): args["int_"] = SInt(ctx.fresh_int("i"))
    if ctx.choose("b"): args["bytes_"] = strings.fresh(ctx, "b", bytes)
    if ctx.choose("h"): args["hex_"] = strings.fresh(ctx, "h")
    if len(args) == 1: raise PathEnd()
    try: it.call(si.SpanId, [], args)
    except PyExc as e: ctx.oblige("none or several forms are refused", True); return
    ctx.oblige("none or several forms are refused", False)


def generated(ctx):
    si, jp = mods()
    it = interp(ctx)
    s = attempt(it, "generating a span id", lambda: it.call(si.span_id_gen, [], {}))
    v = value(it, s)
    ctx.oblige("a generated span id is a 64-bit number", z3.And(v >= 0, v < 1 << 64))
    k = attempt(it, "generating a span key", lambda: it.call(it.getattr(jp.SpanKey, "generate"), [], {}))
    v = value(it, it.getattr(k, "span_id"))
    ctx.oblige("a generated span key has a 64-bit span id and a trace id", z3.And(v >= 0, v < 1 << 64, isinstance(it.getattr(k, "trace_id"), SVal)))


def same(it, k, t, n):
    return z3.And(it.term(it.getattr(k, "trace_id")) == t, value(it, it.getattr(k, "span_id")) == n)


def key_roundtrip(form):
    def task(ctx):
        _, jp = mods()
        it = interp(ctx)
        t, n, k = some_key(it)
        ctx.oblige("a span key keeps the ids it was made from", same(it, k, t, n))
        if form == "bytes":
            enc = attempt(it, "encoding as bytes", lambda: it.getattr(k, "bytes"))
            back = attempt(it, "decoding from bytes", lambda: it.call(it.getattr(jp.SpanKey, "from_bytes"), [enc], {}))
        elif form == "key()":
            enc = attempt(it, "key()", lambda: it.call(it.getattr(k, "key"), [], {}))
            back = attempt(it, "decoding from key()", lambda: it.call(it.getattr(jp.SpanKey, "from_bytes"), [enc], {}))
        elif form == "text":
            enc = attempt(it, "encoding as text", lambda: it.str_(k))
            back = attempt(it, "decoding from text", lambda: it.call(it.getattr(jp.SpanKey, "from_hex"), [enc], {}))
        else:
            doc = attempt(it, "serialising the span id", lambda: to_json(it, it.getattr(k, "span_id")))
            strings.uuid_codec(ctx, t)
            back = attempt(it, "reading from a document", lambda: it.call(jp.SpanKey, [], {"trace_id": SStr(ctx, strings.US(t), str, 36), "span_id": doc}))
        ctx.oblige(f"span key -> {form} -> span key gives the same ids", same(it, back, t, n))
    return task


def key_equality(what):
    def task(ctx):
        it = interp(ctx)
        t, n, a = some_key(it, "1")
        u, m, b = some_key(it, "2")
        e = z3.And(t == u, n == m)
        if what == "key":
            ctx.oblige("span keys are equal exactly when both ids are", tv(it, it.eq(a, b)) == e)
            h = lambda x: it.z(it.call(hash, [x], {}))
            ctx.oblige("equal span keys hash alike", z3.Implies(e, h(a) == h(b)))
            ctx.oblige("a span key does not equal None", z3.Not(tv(it, it.eq(a, None))))
        else:
            r = attempt(it, "comparing with the other key's text", lambda: it.eq(a, it.str_(b)))
            ctx.oblige("a span key equals a text form exactly when it is its own", tv(it, r) == e)
    return task


def key_rejects(kind):
    def task(ctx):
        _, jp = mods()
        it = interp(ctx)
        arg = strings.fresh(ctx, "given", bytes if kind == "bytes" else str)
        try: k = it.call(it.getattr(jp.SpanKey, "from_bytes" if kind == "bytes" else "from_hex"), [arg], {})
        except PyExc as e:
            ctx.oblige("refused with an error", it.exc_match(e.val, Exception))
            if kind == "bytes": ctx.oblige("24 bytes are not refused", z3.Length(arg.z) != 24)
            return
        v = value(it, it.getattr(k, "span_id"))
        ctx.oblige("the span id is a 64-bit number", z3.And(v >= 0, v < 1 << 64))
        if kind == "bytes":
            ctx.oblige("only 24 bytes make a span key", z3.Length(arg.z) == 24)
            ctx.oblige("the span key of some bytes encodes back to them", it.getattr(k, "bytes").z == arg.z)
        else:
            us = [d["text"] for kd, d in ctx.trace if kd == "uuid_text"]
            hs = [d["text"] for kd, d in ctx.trace if kd == "int16"]
            if len(us) != 1 or len(hs) != 1: raise Unsupported("text parsed in another way than by one uuid and one hexadecimal number")
            ctx.oblige("the text is a uuid, a colon and 16 characters that read as the span id", z3.And(
                arg.z == z3.Concat(us[0].z, z3.StringVal(":"), hs[0].z), strings.UOK(us[0].z), z3.Length(hs[0].z) == 16, v == strings.HEXINT(hs[0].z),
                it.term(it.getattr(k, "trace_id")) == strings.UPARSE(us[0].z)))
    return task
