"""Symbolic text and bytes over z3's sequence theory, with the standard library's number/uuid codecs as
uninterpreted functions constrained by instances of their documented laws."""
import z3
from .core import *
from .interp import ModelFn, is_plain

S = z3.StringSort()
str2u = {str: z3.Function("text2u", S, U), bytes: z3.Function("bytes2u", S, U)}
u2str = {str: z3.Function("u2text", U, S), bytes: z3.Function("u2bytes", U, S)}


def lit(v):
    """z3 literal of a concrete str or bytes."""
    t = v if isinstance(v, str) else v.decode("latin-1")
    if any(ord(c) > 0x7e or ord(c) < 0x20 or c == "\\" for c in t): t = "".join("\\u{%x}" % ord(c) for c in t)
    return z3.StringVal(t)


class SStr(Ext):
    """A str or bytes value with a z3 sequence term."""
    def __init__(self, ctx, z, cls=str, pieces=None):
        super().__init__(ctx, z=z)
        self.pycls = cls
        if isinstance(pieces, int): pieces = [(z, pieces)]
        if pieces is None and z3.is_string_value(z): pieces = [(z, len(_pyval(z)))]
        self.pieces = pieces                 # concatenation of pieces of known length, where known
        t = str2u[cls](z)
        self.st["term"] = t
        ctx.assumptions.append(u2str[cls](t) == z)
        ctx.assumptions.append(t != NONE)
    @property
    def z(self): return self.st["z"]
    def __repr__(self): return f"SStr({self.z})"
    def mk(self, z, pieces=None): return SStr(self.ctx, z3.simplify(z), self.pycls, pieces)
    def cat(self, pieces):
        pieces = [p for p in pieces if p[1] > 0]
        if not pieces: return self.mk(z3.StringVal(""))
        return self.mk(pieces[0][0] if len(pieces) == 1 else z3.Concat(*[p[0] for p in pieces]), pieces)
    def concrete_find(self, x):
        """Position of the literal x, when it follows from the pieces alone (None: not known)."""
        if self.pieces is None or len(x) != 1: return None
        pos = 0
        for z, n in self.pieces:
            if z3.is_string_value(z):
                i = _pyval(z).find(x)
                if i >= 0: return pos + i
            elif not self.ctx.prove_quick(z3.Not(z3.Contains(z, z3.StringVal(x))), 300): return None
            pos += n
        return -1
    def arg(self, it, v):
        if isinstance(v, SStr) and v.pycls is self.pycls: return v.z
        if isinstance(v, self.pycls): return lit(v)
        if isinstance(v, (str, bytes, SStr)) or v is None or isinstance(v, (int, SInt)): it.raise_py(TypeError, f"expected {self.pycls.__name__}")
        raise Unsupported(f"text operation with {v!r}")
    def len_(self, it):
        if self.pieces is not None: return sum(n for _, n in self.pieces)
        return SInt(z3.simplify(z3.Length(self.z)))
    def truth(self, it): return self.ctx.branch(z3.Length(self.z) > 0)
    def eq_(self, it, o):
        if isinstance(o, SStr) and o.pycls is self.pycls and self.pieces is not None and o.pieces is not None:
            if [n for _, n in self.pieces] == [n for _, n in o.pieces]: return SBool(z3.And(*[a == b for (a, _), (b, _) in zip(self.pieces, o.pieces)]))
        if isinstance(o, SStr): return SBool(self.z == o.z) if o.pycls is self.pycls else False
        if isinstance(o, (str, bytes)): return SBool(self.z == lit(o)) if isinstance(o, self.pycls) else False
        if isinstance(o, SVal):
            if o.cls is not None and not issubclass(o.cls, self.pycls): return False
            raise Unsupported("== of text and an opaque value")
        if isinstance(o, Obj):
            f = it.lookup(o.cls, "__eq__")
            from .interp import in_repo, BoundMethod
            import types
            if isinstance(f, types.FunctionType) and in_repo(f):
                r = it.call(BoundMethod(f, o), [self], {})
                return False if r is NotImplemented else r
        return False
    def getitem_(self, it, k):
        from .methods import slice_bounds, norm_index
        n = z3.Length(self.z)
        if isinstance(k, slice) and self.pieces is not None and k.step is None:
            conc = lambda v: v is None or isinstance(v, int) or isinstance(v, SInt) and z3.is_int_value(z3.simplify(v.z))
            if conc(k.start) and conc(k.stop):
                total = sum(n for _, n in self.pieces)
                lo, hi, _ = slice(*[None if v is None else v if isinstance(v, int) else z3.simplify(v.z).as_long() for v in (k.start, k.stop)]).indices(total)
                out, pos = [], 0
                for z, m in self.pieces:
                    a, b = max(lo, pos) - pos, min(hi, pos + m) - pos
                    if b > a: out.append((z, m) if (a, b) == (0, m) else (z3.simplify(z3.SubString(z, a, b - a)), b - a))
                    pos += m
                return self.cat(out)
        if isinstance(k, slice):
            lo, hi = slice_bounds(it, n, k)
            return self.mk(z3.SubString(self.z, lo, z3.simplify(hi - lo)))
        if self.pycls is bytes: raise Unsupported("byte of a symbolic bytes value")
        return self.mk(z3.SubString(self.z, norm_index(it, n, k, "string index"), 1))
    def contains_(self, it, x): return SBool(z3.Contains(self.z, self.arg(it, x)))
    def add_(self, it, a, b):
        x = a.z if isinstance(a, SStr) else self.arg(it, a)
        y = b.z if isinstance(b, SStr) else self.arg(it, b)
        pa, pb = [v.pieces if isinstance(v, SStr) else [(lit(v), len(v))] for v in (a, b)]
        if (isinstance(a, SStr) and isinstance(b, SStr) and a.pycls is not b.pycls): it.raise_py(TypeError, "can't concat str and bytes")
        if pa is not None and pb is not None: return self.cat(pa + pb)
        return self.mk(z3.Concat(x, y))
    def ite_(self, it, c, o): return self.mk(z3.If(c, self.z, o.z)) if self.pycls is o.pycls else None
    def terms_(self): return [self.z]
    def subst_(self, it, pairs): return self.mk(z3.substitute(self.z, *pairs))
    def find(self, it, x):
        c = self.concrete_find(x) if isinstance(x, str) and self.pycls is str else None
        if c is not None: return z3.IntVal(c)
        return z3.IndexOf(self.z, self.arg(it, x), 0)
    def m_find(self, it, x, *a):
        if a: raise Unsupported("find from")
        return SInt(self.find(it, x))
    def m_index(self, it, x, *a):
        if a: raise Unsupported("index from")
        i = self.find(it, x)
        if self.ctx.branch(i < 0): it.raise_py(ValueError, "substring not found")
        return SInt(i)
    def m_startswith(self, it, x):
        if isinstance(x, tuple): return SBool(z3.Or(*[z3.PrefixOf(self.arg(it, y), self.z) for y in x]))
        return SBool(z3.PrefixOf(self.arg(it, x), self.z))
    def m_endswith(self, it, x): return SBool(z3.SuffixOf(self.arg(it, x), self.z))
    def m_partition(self, it, x):
        i, n, empty = self.find(it, x), z3.Length(self.arg(it, x)), self.mk(z3.StringVal(""))
        if self.ctx.branch(i < 0): return (self, empty, empty)
        if z3.is_int_value(i): return (self.getitem_(it, slice(None, i.as_long())), x, self.getitem_(it, slice(i.as_long() + len(x), None)))
        return (self.mk(z3.SubString(self.z, 0, i)), x, self.mk(z3.SubString(self.z, i + n, z3.Length(self.z) - i - n)))
    def m_split(self, it, sep=None, maxsplit=-1):
        if sep is None or maxsplit == 0: raise Unsupported("split")
        out, rest = [], self
        for _ in range(maxsplit if maxsplit > 0 else 4):
            i = rest.find(it, sep)
            if self.ctx.branch(i < 0): return MList(self.ctx, out + [rest])
            n = z3.Length(self.arg(it, sep))
            if z3.is_int_value(i):
                out.append(rest.getitem_(it, slice(None, i.as_long()))); rest = rest.getitem_(it, slice(i.as_long() + len(sep), None)); continue
            out.append(self.mk(z3.SubString(rest.z, 0, i)))
            rest = self.mk(z3.SubString(rest.z, i + n, z3.Length(rest.z) - i - n))
        if maxsplit > 0: return MList(self.ctx, out + [rest])
        raise Unsupported("split into many pieces")
    def m_removeprefix(self, it, x):
        p = self.arg(it, x)
        return self.mk(z3.If(z3.PrefixOf(p, self.z), z3.SubString(self.z, z3.Length(p), z3.Length(self.z)), self.z))
    def m_replace(self, it, *a): raise Unsupported("replace")
    def m_upper(self, it): raise Unsupported("upper")
    m_lower = m_strip = m_upper
    def m_encode(self, it, *a):
        r = SStr(self.ctx, z3.Function("utf8", S, S)(self.z), bytes)
        self.ctx.assume(z3.Function("utf8_text", S, S)(r.z) == self.z)
        return r
    def m_decode(self, it, *a):
        raise Unsupported("decode")
    def m_hex(self, it, *a):
        if a or self.pycls is not bytes: raise Unsupported("hex")
        r = SStr(self.ctx, z3.Function("bytes_hex", S, S)(self.z))
        self.ctx.assume(z3.And(z3.Length(r.z) == 2 * z3.Length(self.z), z3.Function("hex_bytes", S, S)(r.z) == self.z))
        h = HEXINT(r.z)
        self.ctx.assume(z3.Implies(z3.Length(self.z) > 0, z3.And(HEXOK(r.z), h == BFROM["big"](self.z), h >= 0)))
        hex_laws(self.ctx, r.z)
        return r


def _pyval(z):
    t = z.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t)


def fresh(ctx, name, cls=str): return SStr(ctx, z3.String(ctx.name(name)), cls)


# ---------------------------------------------------------------- codecs
HEXOK, HEXINT = z3.Function("hex_ok", S, B), z3.Function("hex_int", S, I)
BFROM = {e: z3.Function("from_bytes_" + e, S, I) for e in ("big", "little")}
BTO = {e: z3.Function("to_bytes_" + e, I, I, S) for e in ("big", "little")}
HEXTO = z3.Function("hex_text", I, I, S)              # value, width


def hex_laws(ctx, s):
    """int(s, 16): bounded by the length of the text, no ':' in a number's text."""
    v = HEXINT(s)
    ctx.assume(z3.Implies(HEXOK(s), z3.And(z3.Length(s) > 0, z3.Not(z3.Contains(s, z3.StringVal(":"))))))
    for n in (8, 15, 16, 17): ctx.assume(z3.Implies(z3.And(HEXOK(s), z3.Length(s) <= n), z3.And(v < 16 ** n, v > -16 ** n)))


def int_of(it, s, base=10):
    if base != 16 or not isinstance(s, SStr): raise Unsupported("int() of text, base other than 16")
    hex_laws(it.ctx, s.z)
    it.ctx.event("int16", text=s)
    if not it.ctx.branch(HEXOK(s.z)): it.raise_py(ValueError, "invalid literal for int() with base 16")
    return SInt(HEXINT(s.z))


def from_bytes(it, b, byteorder="big", *, signed=False):
    if not isinstance(b, SStr) or b.pycls is not bytes: raise Unsupported("int.from_bytes")
    if signed is not False or byteorder not in BFROM: raise Unsupported("int.from_bytes options")
    v = BFROM[byteorder](b.z)
    it.ctx.assume(v >= 0)
    for n in (4, 7, 8, 16): it.ctx.assume(z3.Implies(z3.Length(b.z) == n, z3.And(v < 256 ** n, BTO[byteorder](v, n) == b.z)))
    return SInt(v)


def to_bytes(it, v, length=1, byteorder="big", *, signed=False):
    if signed is not False or byteorder not in BTO or not isinstance(length, int): raise Unsupported("int.to_bytes options")
    if not it.ctx.branch(z3.And(v.z >= 0, v.z < 256 ** length)): it.raise_py(OverflowError, "int too big to convert")
    t = BTO[byteorder](v.z, length)
    it.ctx.assume(z3.And(z3.Length(t) == length, BFROM[byteorder](t) == v.z))
    return SStr(it.ctx, t, bytes, length)


def hex_format(width, sign=""):
    def f(it, v):
        if not isinstance(v, SInt): raise Unsupported("hexadecimal format of a non-integer")
        t = HEXTO(v.z, width)
        c = [HEXOK(t), HEXINT(t) == v.z, z3.Length(t) >= max(width, 1)]
        for n in sorted({1, 8, 15, 16, 17, max(width, 1)}):
            if n >= max(width, 1): c.append(z3.Implies(z3.And(v.z >= 0, v.z < 16 ** n), z3.Length(t) <= n))
            c.append(z3.Implies(v.z >= 16 ** n, z3.Length(t) > n))
        it.ctx.assume(z3.And(*c))
        hex_laws(it.ctx, t)
        return SStr(it.ctx, t, str, width if width and it.ctx.prove_quick(z3.And(v.z >= 0, v.z < 16 ** width), 500) else None)
    return f


UU = "uuid"
UB, UH, US = (z3.Function(n, U, S) for n in ("uuid_bytes", "uuid_hex", "uuid_text"))
UFROMB, UPARSE, UOK = z3.Function("uuid_from_bytes", S, U), z3.Function("uuid_parse", S, U), z3.Function("uuid_ok", S, B)
UI, UFROMI = z3.Function("uuid_int", U, I), z3.Function("uuid_from_int", I, U)


def uuid_codec(ctx, u):
    """Laws of the text and byte forms of one UUID."""
    for t, n in ((UH(u), 32), (US(u), 36)):
        ctx.assume(z3.And(z3.Length(t) == n, UOK(t), UPARSE(t) == u, z3.Not(z3.Contains(t, z3.StringVal(":")))))
    ctx.assume(z3.And(z3.Length(UB(u)) == 16, UFROMB(UB(u)) == u))
    ctx.assume(z3.And(UI(u) >= 0, UI(u) < 1 << 128, UFROMI(UI(u)) == u, BFROM["big"](UB(u)) == UI(u), BTO["big"](UI(u), 16) == UB(u)))
    ctx.assume(u != NONE)


def install(it):
    import uuid, os
    ctx = it.ctx
    it.models[("int()", SStr)] = int_of
    it.models["from_bytes"] = from_bytes
    it.models[("int", "to_bytes")] = to_bytes
    it.models[int.from_bytes] = from_bytes
    for w in range(0, 34):
        for spec in ({0: ["x", "X"]}.get(w) or [f"0{w}x", f"0{w}X"]): it.models[("format", spec)] = hex_format(w)
    it.models[hex] = _uns
    am = it.attr_models
    am[(uuid.UUID, "bytes")] = lambda it, u: (uuid_codec(ctx, u.z), SStr(ctx, UB(u.z), bytes, 16))[1]
    am[(uuid.UUID, "hex")] = lambda it, u: (uuid_codec(ctx, u.z), SStr(ctx, UH(u.z), str, 32))[1]
    am[(uuid.UUID, "int")] = lambda it, u: (uuid_codec(ctx, u.z), SInt(UI(u.z)))[1]
    am[(uuid.UUID, "__str__")] = lambda it, u: (uuid_codec(ctx, u.z), SStr(ctx, US(u.z), str, 36))[1]
    def new(it, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, **k):
        given = [x for x in (hex, bytes, bytes_le, fields, int) if x is not None]
        if len(given) != 1: it.raise_py(TypeError, "one of the hex, bytes, bytes_le, fields, or int arguments must be given")
        if version is not None or k or bytes_le is not None or fields is not None: raise Unsupported("uuid.UUID options")
        if bytes is not None:
            if not isinstance(bytes, SStr): raise Unsupported("uuid.UUID(bytes=...)")
            if not ctx.branch(it.z(bytes.len_(it)) == 16): it.raise_py(ValueError, "bytes is not a 16-char string")
            u = UFROMB(bytes.z)
            ctx.assume(UB(u) == bytes.z)
        elif int is not None:
            if not isinstance(int, SInt): raise Unsupported("uuid.UUID(int=...)")
            if not ctx.branch(z3.And(int.z >= 0, int.z < 1 << 128)): it.raise_py(ValueError, "int is out of range")
            u = UFROMI(int.z)
            ctx.assume(UI(u) == int.z)
        else:
            if not isinstance(hex, SStr) or hex.pycls is not str: raise Unsupported("uuid.UUID(hex=...)")
            ctx.event("uuid_text", text=hex)
            ctx.assume(z3.Implies(UOK(hex.z), z3.Length(hex.z) >= 32))
            if not ctx.branch(UOK(hex.z)): it.raise_py(ValueError, "badly formed hexadecimal UUID string")
            u = UPARSE(hex.z)
        uuid_codec(ctx, u)
        return SVal(u, uuid.UUID)
    it.models[uuid.UUID] = new
    it.models[uuid.uuid4] = lambda it: new_uuid(ctx)
    def urandom(it, n):
        s = fresh(ctx, "urandom", bytes)
        ctx.assume(z3.Length(s.z) == it.z(n))
        return s
    it.models[os.urandom] = urandom
    return it


def new_uuid(ctx, name="uuid"):
    import uuid
    u = ctx.fresh_u(name)
    uuid_codec(ctx, u)
    return SVal(u, uuid.UUID)


def _uns(it, *a, **k): raise Unsupported("hex()")
