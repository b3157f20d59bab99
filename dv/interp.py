"""Symbolic interpreter for the real functions of /repo (a weakest-precondition style VC
generator by path enumeration: every obligation is a formula over all inputs)."""
import ast, asyncio, builtins, enum, functools, inspect, logging, types, typing, os, contextvars
import z3
import pydantic
from .core import *
from .core import _MISSING
from . import env as _env

_AST = {}


class FnInfo:
    __slots__ = ("node", "mangle", "file")
    def __init__(self, node, mangle, file):
        self.node, self.mangle, self.file = node, mangle, file


def _index(file):
    if file in _AST:
        return _AST[file]
    with open(file) as f:
        tree = ast.parse(f.read(), file)
    idx = {}
    def visit(node, mangle):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                visit(ch, ch.name)
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                idx.setdefault((line, ch.name), FnInfo(ch, mangle, file))
                visit(ch, mangle)
            elif isinstance(ch, ast.Lambda):
                idx.setdefault((ch.lineno, "<lambda>"), FnInfo(ch, mangle, file))
                visit(ch, mangle)
            else:
                visit(ch, mangle)
    visit(tree, None)
    _AST[file] = idx
    return idx


def fn_info(fn):
    co = fn.__code__
    info = _index(co.co_filename).get((co.co_firstlineno, co.co_name))
    if info is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return info


def in_repo(fn):
    f = getattr(getattr(fn, "__code__", None), "co_filename", "")
    return os.path.abspath(f).startswith(os.path.abspath(_env.REPO) + os.sep)


def cls_in_repo(cls):
    import sys
    m = sys.modules.get(cls.__module__)
    f = getattr(m, "__file__", None) or ""
    return os.path.abspath(f).startswith(os.path.abspath(_env.REPO) + os.sep)


class ReturnSig(BaseException):
    def __init__(self, v): self.v = v
class BreakSig(BaseException): pass
class ContinueSig(BaseException): pass


class ModelFn:
    def __init__(self, py, name=""):
        self.py, self.name = py, name or getattr(py, "__name__", "model")
    def __repr__(self): return f"<ModelFn {self.name}>"


class BoundMethod:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class NativeMethod:
    def __init__(self, obj, name): self.obj, self.name = obj, name


class Closure:
    def __init__(self, info, frame, defaults, kwdefaults):
        self.info, self.frame, self.defaults, self.kwdefaults = info, frame, defaults, kwdefaults
        self.name = getattr(info.node, "name", "<lambda>")


class SuperProxy:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class DictView:
    def __init__(self, d, kind): self.d, self.kind = d, kind


class Star:
    """Opaque mapping passed with ** ."""
    def __init__(self, val): self.val = val


class NullLog:
    pass


class CtxVar:
    pass


import itertools
FRAME_SEQ = itertools.count()


class Frame:
    def __init__(self, locals_, parent, globals_, mangle, cls_cell=None, closure_vars=None, fnname=""):
        self.locals, self.parent, self.globals, self.mangle = locals_, parent, globals_, mangle
        self.cls_cell, self.closure_vars, self.fnname = cls_cell, closure_vars or {}, fnname
        self.global_names, self.nonlocal_names = set(), set()
        self.seq = next(FRAME_SEQ)
        self.cur_exc = None
        self.yields = None


PLAIN = (type(None), bool, int, float, str, bytes, complex)


def is_plain(v):
    if isinstance(v, PLAIN) or isinstance(v, (type, enum.Enum, types.ModuleType)):
        return True
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
        return True
    if isinstance(v, tuple):
        return all(is_plain(x) for x in v)
    if isinstance(v, MList):
        return not v.symbolic and all(is_plain(x) for x in v.items)
    if isinstance(v, MDict):
        return not v.symbolic and all(is_plain(x) for x in v.d.values()) and all(is_plain(k) for k in v.d)
    if isinstance(v, MSet):
        return all(is_plain(x) for x in v.items)
    if isinstance(v, (Sym, Obj, Ext, Coro, UExc, Closure, BoundMethod, ModelFn, NativeMethod, DictView, Star, NullLog, SuperProxy, CtxVar)):
        return False
    return True   # raw native object


def to_native(v):
    if isinstance(v, tuple): return tuple(to_native(x) for x in v)
    if isinstance(v, MList): return [to_native(x) for x in v.items]
    if isinstance(v, MDict): return {to_native(k): to_native(x) for k, x in v.d.items()}
    if isinstance(v, MSet): return set(to_native(x) for x in v.items)
    return v


def model_validate_json(it, cls, text, *a, **k):
    import json
    if a or k or json.loads not in it.models: raise Unsupported("model_validate_json")
    try: doc = it.models[json.loads](it, text)
    except PyExc: raise PyExc(Obj(it.ctx, pydantic.ValidationError, {"args": (), "title": cls.__name__}))
    return model_validate(it, cls, doc)


def model_validate(it, cls, obj, *a, **k):
    """Model.model_validate(mapping): as Model(**mapping), but anything else is a validation error."""
    if a or k: raise Unsupported("options of model_validate")
    if isinstance(obj, MDict):
        if obj.symbolic: raise Unsupported("model_validate of a symbolic dict")
        return it.call(cls, [], {kk: vv for kk, vv in obj.d.items()}) if all(isinstance(x, str) for x in obj.d) else it.unsupported("keys")
    if isinstance(obj, SVal):
        if not (obj.cls is not None and issubclass(obj.cls, dict) and not obj.nullable) and not it.ctx.branch(z3.Function("is_mapping", U, B)(obj.z)):
            raise PyExc(Obj(it.ctx, pydantic.ValidationError, {"args": (), "title": cls.__name__}))
        return it.call(cls, [], {"**": Star(obj)})
    raise Unsupported("model_validate of an object")


class Interp:
    def __init__(self, ctx, models=None, contracts=None, singletons=None, inline_depth=60):
        self.ctx = ctx
        self.models = models or {}            # callable/class -> python model(interp, *a, **kw)
        self.models.setdefault(pydantic.BaseModel.model_validate.__func__, model_validate)
        self.models.setdefault(pydantic.BaseModel.model_validate_json.__func__, model_validate_json)
        self.contracts = contracts or {}      # qualified name -> python model (a proved contract)
        self.setattr_models = {}
        self.attr_models = {}                 # (cls, attr) -> model(interp, value)
        self.singletons = singletons or {}
        self.value_override = {}              # id(native object) -> model
        self.globals_override = {}            # (module name, global name) -> value
        self.depth, self.max_depth = 0, inline_depth
        self.loop_spec = None                 # LoopSpec
        self.loop_quiet = 0                   # explorations of loop bodies under way
        self.loop_seqs = []                   # what the loops being proved go through (innermost last)
        self.generators = self.sink = self.sink_from = None   # what a spec does with generators and what they yield
        self.on_yield = None                  # callable(interp, label) at every suspension point
        self.cancellable = False
        self.ctxvars = {}
        self.inlined = ctx.run.__dict__.setdefault("inlined", set())
        self.used_contracts = ctx.run.__dict__.setdefault("used_contracts", set())
        self.used_models = ctx.run.__dict__.setdefault("used_models", set())
        self.exc_stack = []

    # ================================================================ helpers
    def raise_py(self, cls, *args):
        raise PyExc(Obj(self.ctx, cls, {"args": tuple(args)}))

    def wrap(self, v):
        ctx = self.ctx
        if isinstance(v, (Sym, Obj, MList, MDict, MSet, Ext, Coro, UExc, Closure, BoundMethod, ModelFn, NativeMethod)):
            return v
        if isinstance(v, PLAIN) or isinstance(v, (type, enum.Enum, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
            return v
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.wrap(x) for x in v)
        key = id(v)
        if key in self.value_override: return self.value_override[key]
        if key in ctx.memo:
            return ctx.memo[key][1]
        if type(v) in (dict, types.MappingProxyType):
            w = MDict(ctx, {k: None for k in v})
            ctx.memo[key] = (v, w)
            w.d = {k: self.wrap(x) for k, x in v.items()}
        elif type(v) is list:
            w = MList(ctx, [])
            ctx.memo[key] = (v, w)
            w.items = [self.wrap(x) for x in v]
        elif type(v) in (set, frozenset):
            w = MSet(ctx, sorted((self.wrap(x) for x in v), key=repr))
            ctx.memo[key] = (v, w)
        elif isinstance(v, logging.Logger):
            w = NullLog()
            ctx.memo[key] = (v, w)
        elif isinstance(v, contextvars.ContextVar):
            w = CtxVar(); w.var = v; w.default = None
            ctx.memo[key] = (v, w)
        elif cls_in_repo(type(v)):
            if type(v) in self.singletons:
                return self.singletons[type(v)]
            w = Obj(ctx, type(v))
            ctx.memo[key] = (v, w)
            d = dict(getattr(v, "__dict__", {}))
            for c in type(v).__mro__:
                for s in getattr(c, "__slots__", ()) or ():
                    if hasattr(v, s) and not s.startswith("__pydantic"): d[s] = getattr(v, s)
            w.fields = {k: self.wrap(x) for k, x in d.items()}
        else:
            return v
        return w

    # ---------------------------------------------------------------- terms
    def term(self, v):
        """Embed a value in sort U (for dictionary keys, opaque functions, equality)."""
        ctx = self.ctx
        if isinstance(v, SVal): return v.z
        if isinstance(v, SInt): return int2u(v.z)
        if isinstance(v, SBool): return bool2u(v.z)
        if isinstance(v, UExc): return v.term
        if isinstance(v, tuple):
            f = z3.Function(f"tuple{len(v)}", *([U] * len(v)), U) if v else None
            return f(*[self.term(x) for x in v]) if v else ctx.const(())
        if isinstance(v, Obj):
            m = self.attr_models.get((v.cls, "__term__"))
            if m: return m(self, v)
            return z3.Const(f"obj!{v.ident}", U)
        if isinstance(v, (MList, MDict, MSet)) and is_plain(v):
            return ctx.const(repr(to_native(v)))
        if isinstance(v, MDict) and not v.symbolic:
            items = sorted(v.d.items(), key=lambda kv: repr(kv[0]))
            f = z3.Function("dict!" + ",".join(repr(k) for k, _ in items), *([U] * len(items)), U)
            return f(*[self.term(x) for _, x in items])
        if isinstance(v, MList) and not v.symbolic:
            f = z3.Function(f"list{len(v.items)}", *([U] * len(v.items)), U)
            return f(*[self.term(x) for x in v.items])
        if isinstance(v, (Ext, Closure, MList, MDict, MSet, Coro, BoundMethod, ModelFn, NullLog)):
            if isinstance(v, Ext) and "term" in v.st: return v.st["term"]
            ident = getattr(v, "ident", None)
            if ident is None: ident = f"py{self.ctx.run.idnames.setdefault(id(v), len(self.ctx.run.idnames))}"
            return z3.Const(f"obj!{ident}", U)
        return ctx.const(v)

    def val(self, term, cls=None, nullable=False):
        if not nullable:
            self.ctx.assume(term != NONE)
        return SVal(term, cls, nullable)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, SBool): return ctx.branch(v.z)
        if isinstance(v, SInt): return ctx.branch(v.z != 0)
        if isinstance(v, SVal):
            return ctx.branch(self.truth_term(v))
        if isinstance(v, MList):
            return ctx.branch(v.n > 0) if v.symbolic else len(v.items) > 0
        if isinstance(v, MDict):
            if v.symbolic:
                if v.order is not None: return ctx.branch(v.order.n > 0)
                raise Unsupported("truth of a symbolic dict")
            return len(v.d) > 0
        if isinstance(v, MSet): return len(v.items) > 0
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                f = self.lookup(v.cls, nm)
                if f is not None:
                    return self.truth(self.call(BoundMethod(f, v), [], {}))
            return True
        if isinstance(v, Ext):
            if hasattr(v, "truth"): return v.truth(self)
            return True
        if isinstance(v, (Coro, UExc, Closure, BoundMethod, ModelFn, NativeMethod, NullLog, SuperProxy, CtxVar)): return True
        if isinstance(v, DictView):
            return self.truth(v.d)
        return bool(v)

    def truth_term(self, v):
        if v.cls is not None and v.cls not in (str, bytes, dict, list, set, tuple, int, float, bool, object):
            if not hasattr(v.cls, "__bool__") and not hasattr(v.cls, "__len__"):
                return v.z != NONE if v.nullable else z3.BoolVal(True)
        return truthy(v.z)

    # ---------------------------------------------------------------- equality / identity
    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None: return True
            if isinstance(o, SVal):
                return SBool(o.z == NONE) if o.nullable else False
            return False
        if isinstance(a, (bool,)) or isinstance(b, bool):
            return self.eq(a, b) if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) else self._is_val(a, b)
        return self._is_val(a, b)

    def _is_val(self, a, b):
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, (Obj, Ext, SVal)) and isinstance(b, (Obj, Ext, SVal)):
                return SBool(self.term(a) == self.term(b))
            if isinstance(a, PLAIN) or isinstance(b, PLAIN) or isinstance(a, type) or isinstance(b, type) or isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
                return SBool(self.term(a) == self.term(b))
            return False
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            return self.eq(a, b)
        return a is b

    def eq(self, a, b):
        ctx = self.ctx
        if a is b: return True
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, int) and isinstance(b, int): return a == b
            return SBool(self.z(a) == self.z(b))
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            return SBool(self.zb(a) == self.zb(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ext) and hasattr(x, "eq_"): return x.eq_(self, y)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Obj, SVal)) and x is not None:
                c = x.cls
                if c is not None and cls_in_repo(c):
                    m = self.attr_models.get((c, "__eq__"))
                    if m: return m(self, x, y)
                    f = self.lookup(c, "__eq__")
                    if isinstance(f, types.FunctionType) and in_repo(f):
                        if isinstance(y, (Obj, SVal, str, bytes, int)) or y is None:
                            r = self.call(BoundMethod(f, x), [y], {})
                            if r is not NotImplemented: return r
                            continue
        if isinstance(a, Obj) and isinstance(b, Obj):
            if issubclass(a.cls, pydantic.BaseModel) and a.cls is b.cls:
                return self.eq_all([(a.fields.get(k), b.fields.get(k)) for k in a.cls.model_fields])
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return self.eq_all(list(zip(a, b)))
        if isinstance(a, MList) and isinstance(b, MList) and not a.symbolic and not b.symbolic:
            if len(a.items) != len(b.items): return False
            return self.eq_all(list(zip(a.items, b.items)))
        if isinstance(a, MDict) and isinstance(b, MDict) and not a.symbolic and not b.symbolic:
            if set(a.d) != set(b.d): return False
            return self.eq_all([(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, (Sym, UExc)) or isinstance(b, (Sym, UExc)):
            if isinstance(a, (SInt, SBool)) and not isinstance(b, (Sym, int, bool)): return False
            if isinstance(b, (SInt, SBool)) and not isinstance(a, (Sym, int, bool)): return False
            return SBool(self.term(a) == self.term(b))
        if isinstance(a, (Ext, Closure, BoundMethod, ModelFn, Obj)) or isinstance(b, (Ext, Closure, BoundMethod, ModelFn, Obj)):
            if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
                return a.fn is b.fn and a.self_ is b.self_
            return a is b
        if is_plain(a) and is_plain(b):
            try:
                return bool(to_native(a) == to_native(b))
            except Exception as e:
                raise Unsupported(f"native ==: {e}")
        raise Unsupported(f"== on {a!r} and {b!r}")

    def eq_all(self, pairs):
        cs = []
        for x, y in pairs:
            r = self.eq(x, y)
            if r is False: return False
            if r is not True: cs.append(r.z)
        return True if not cs else SBool(z3.And(*cs))

    def z(self, v):
        if isinstance(v, SInt): return v.z
        if isinstance(v, SBool): return z3.If(v.z, 1, 0)
        if isinstance(v, (bool, int)): return z3.IntVal(int(v))
        if isinstance(v, SVal): return u2int(v.z)
        raise Unsupported(f"integer expected: {v!r}")

    def zb(self, v):
        if isinstance(v, SBool): return v.z
        if isinstance(v, bool): return z3.BoolVal(v)
        raise Unsupported(f"bool expected: {v!r}")

    # ================================================================ classes
    def lookup(self, cls, name):
        for c in cls.__mro__:
            if (c, name) in self.ctx.overlay: return self.ctx.overlay[(c, name)]
            if name in c.__dict__:
                if c is object and name in ("__eq__", "__hash__", "__init__", "__str__", "__repr__", "__ne__", "__init_subclass__"): return None
                return c.__dict__[name]
        return None

    def class_attr(self, cls, name):
        m = self.attr_models.get((cls, name))
        if m: return m(self, cls)
        f = self.lookup(cls, name)
        if f is None:
            try:
                r = getattr(cls, name)
            except AttributeError:
                self.raise_py(AttributeError, f"{cls.__name__}.{name}")
            return self.wrap(r)
        if isinstance(f, staticmethod): return f.__func__
        if isinstance(f, classmethod): return BoundMethod(f.__func__, cls)
        if isinstance(f, (types.FunctionType, property, Sym, Obj, Ext, MList, MDict)): return f
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
            return getattr(cls, name)
        if not cls_in_repo(cls) or issubclass(cls, enum.Enum):
            return self.wrap(getattr(cls, name))
        return self.wrap(f)

    def getattr(self, v, name):
        ctx = self.ctx
        if isinstance(v, Obj):
            m = self.attr_models.get((v.cls, name))
            if m: return m(self, v)
            f = self.lookup(v.cls, name)
            if isinstance(f, property):
                if f.fget is None: self.raise_py(AttributeError, name)
                return self.call(f.fget, [v], {})
            if name in v.fields: return v.fields[name]
            if name in ("model_dump_json", "model_dump") and issubclass(v.cls, pydantic.BaseModel) and not (isinstance(f, types.FunctionType) and in_repo(f)): return NativeMethod(v, name)
            if name == "__class__": return v.cls
            if name == "__dict__": raise Unsupported("__dict__")
            if f is None or isinstance(f, types.MemberDescriptorType):
                if name in ("model_dump_json", "model_dump", "dict", "json"): return NativeMethod(v, name)
                if hasattr(v.cls, name) and f is None: return self.wrap(getattr(v.cls, name))
                self.raise_py(AttributeError, f"'{v.cls.__name__}' object has no attribute '{name}'")
            return self.bind(f, v, v.cls, name)
        if isinstance(v, Ext):
            g = getattr(v, "g_" + name, None)
            if g: return g(self)
            m = getattr(v, "m_" + name, None)
            if m: return ModelFn(lambda it, *a, _m=m, **k: _m(it, *a, **k), type(v).__name__ + "." + name)
            if name in v.st: return v.st[name]
            if name == "__class__" and v.pycls: return v.pycls
            if v.pycls is not None:
                f = self.lookup(v.pycls, name)
                if f is not None: return self.bind(f, v, v.pycls, name)
            h = getattr(v, "getattr_", None)
            if h: return h(self, name)
            raise Unsupported(f"{type(v).__name__}.{name} is not modelled")
        if isinstance(v, SVal):
            if v.nullable:
                if ctx.branch(v.z == NONE):
                    self.raise_py(AttributeError, f"'NoneType' object has no attribute '{name}'")
                v = SVal(v.z, v.cls, False)
            if v.cls is not None:
                for c in v.cls.__mro__:
                    m = self.attr_models.get((c, name))
                    if m: return m(self, v)
                if issubclass(v.cls, pydantic.BaseModel):
                    if name in v.cls.model_fields:
                        return self.field_of(v, name, v.cls.model_fields[name].annotation)
                    if name in ("model_dump_json", "model_dump", "dict", "json"): return NativeMethod(v, name)
                f = self.lookup(v.cls, name)
                if isinstance(f, property) and f.fget in self.models:
                    return self.models[f.fget](self, v)
                if f is not None and cls_in_repo(v.cls):
                    if isinstance(f, property): return self.call(f.fget, [v], {})
                    return self.bind(f, v, v.cls, name)
                if v.cls in (str, bytes, dict, list, set, int, float, tuple):
                    return NativeMethod(v, name)
            h = getattr(self, "opaque_attr", None)
            if h:
                r = h(v, name)
                if r is not None: return r
            f = z3.Function("attr_" + name, U, U)
            return SVal(f(v.z), None, True)
        if isinstance(v, UExc):
            if name in v.fields: return v.fields[name]
            if name == "__class__": return self.type_of(v)
            r = SVal(ctx.fresh_u("exc_" + name), str if name == "message" else None)
            if name in ("status",): r = SInt(ctx.fresh_int("exc_status"))
            v.fields[name] = r
            return r
        if isinstance(v, SuperProxy):
            mro = (v.self_.cls if isinstance(v.self_, (Obj, SVal)) else v.self_ if isinstance(v.self_, type) else v.self_.pycls).__mro__
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    f = c.__dict__[name]
                    key = f.__func__ if isinstance(f, (staticmethod, classmethod)) else f
                    if isinstance(key, types.FunctionType) and (in_repo(key) or key in self.models):
                        return self.bind(f, v.self_, mro[0], name)
                    return ModelFn(lambda it, *a, _c=c, **k: it.native_super(_c, name, v.self_, a, k), f"super.{name}")
            self.raise_py(AttributeError, name)
        if isinstance(v, NullLog):
            return ModelFn(lambda it, *a, **k: None, "log." + name)
        if isinstance(v, CtxVar):
            return ModelFn(lambda it, *a, **k: it.ctxvar_op(v, name, a), "ContextVar." + name)
        if isinstance(v, type):
            if name == "__name__": return v.__name__
            return self.class_attr(v, name)
        if isinstance(v, types.ModuleType):
            try:
                return self.wrap(getattr(v, name))
            except AttributeError:
                self.raise_py(AttributeError, name)
        if isinstance(v, (MList, MDict, MSet, DictView, str, bytes, int, float, tuple, SInt, SBool)):
            if isinstance(v, enum.Enum) : return self.wrap(getattr(v, name))
            return NativeMethod(v, name)
        if isinstance(v, (BoundMethod, Closure, types.FunctionType)):
            if name == "__name__": return self.fn_name(v)
            if isinstance(v, types.FunctionType): return self.wrap(getattr(v, name))
            raise Unsupported(f"attribute {name} of a function")
        if isinstance(v, Coro):
            raise Unsupported(f"attribute {name} of a coroutine")
        if v is None:
            self.raise_py(AttributeError, f"'NoneType' object has no attribute '{name}'")
        if is_plain(v):
            try:
                r = getattr(v, name)
            except AttributeError as e:
                self.raise_py(AttributeError, str(e))
            if callable(r) and not isinstance(r, type): return NativeMethod(v, name)
            return self.wrap(r)
        raise Unsupported(f"attribute {name} of {v!r}")

    def fn_name(self, v):
        if isinstance(v, BoundMethod): v = v.fn
        return v.name if isinstance(v, Closure) else v.__name__

    def field_of(self, v, name, ann):
        """Field of an opaque pydantic value: an uninterpreted function of the value."""
        fname = f"fld_{v.cls.__name__}_{name}"
        opt = False
        args = typing.get_args(ann)
        origin = typing.get_origin(ann)
        if origin in (typing.Union, types.UnionType):
            rest = [a for a in args if a is not type(None)]
            opt = len(rest) != len(args)
            ann = rest[0] if len(rest) == 1 else None
        if ann is int:
            return SInt(z3.Function(fname, U, I)(v.z))
        if ann is bool:
            return SBool(z3.Function(fname, U, B)(v.z))
        t = z3.Function(fname, U, U)(v.z)
        org = typing.get_origin(ann)
        cls = ann if isinstance(ann, type) else org if isinstance(org, type) else None
        if cls is None or ann is typing.Any:
            return SVal(t, None, True)
        return self.val(t, cls, opt)

    def bind(self, f, obj, cls, name):
        if isinstance(f, staticmethod): return f.__func__
        if isinstance(f, classmethod): return BoundMethod(f.__func__, cls)
        if isinstance(f, types.FunctionType): return BoundMethod(f, obj)
        if isinstance(f, property): return self.call(f.fget, [obj], {})
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType)):
            return ModelFn(lambda it, *a, **k: it.native_super(cls, name, obj, a, k), f"{cls.__name__}.{name}")
        if isinstance(f, ModelFn): return f
        return self.wrap(f)

    def setattr(self, v, name, val):
        ctx = self.ctx
        if isinstance(v, Obj):
            f = self.lookup(v.cls, name)
            if isinstance(f, property):
                if f.fset is None: self.raise_py(AttributeError, name)
                return self.call(f.fset, [v, val], {})
            if v.frozen: raise Unsupported(f"mutation of an element of a symbolic collection ({name})")
            ctx.setd(v.fields, name, val, owner=v)
        elif isinstance(v, Ext):
            h = getattr(v, "s_" + name, None)
            if h: h(self, val)
            elif getattr(v, "opensetattr", False): v.set(name, val)
            else: raise Unsupported(f"assignment to {type(v).__name__}.{name}")
        elif isinstance(v, UExc):
            v.fields[name] = val
        elif isinstance(v, SVal) and v.cls is not None and ((v.cls, name) in self.setattr_models or (v.cls, "*") in self.setattr_models):
            if v.nullable:
                if ctx.branch(v.z == NONE): self.raise_py(AttributeError, name)
            h = self.setattr_models.get((v.cls, name))
            if h: h(self, v, val)
            else: self.setattr_models[(v.cls, "*")](self, v, name, val)
        elif isinstance(v, type):
            ctx.setd(ctx.overlay, (v, name), val)
        else:
            raise Unsupported(f"assignment to attribute {name} of {v!r}")

    def native_super(self, cls, name, self_, a, k):
        if name == "__init__":
            if isinstance(self_, Obj) and issubclass(self_.cls, BaseException):
                self.ctx.setd(self_.fields, "args", tuple(a), owner=self_)
                return None
            if cls in (object,) or issubclass(cls, (typing.Generic,)) or cls.__module__ == "abc":
                return None
            m = self.models.get((cls, "__init__"))
            if m: return m(self, self_, *a, **k)
        m = self.models.get((cls, name))
        if m: return m(self, self_, *a, **k)
        if name == "__str__" and isinstance(self_, Obj) and issubclass(self_.cls, BaseException):
            return self.exc_str(self_)
        if name in ("__enter__", "__exit__", "__aenter__", "__aexit__"): pass
        raise Unsupported(f"{cls.__name__}.{name} is not modelled")

    # ================================================================ calls
    def call(self, fn, args, kwargs):
        ctx = self.ctx
        if isinstance(fn, ModelFn):
            self.used_models.add(fn.name)
            return fn.py(self, *args, **kwargs)
        if isinstance(fn, BoundMethod):
            f = fn.fn
            if isinstance(f, ModelFn): return f.py(self, fn.self_, *args, **kwargs)
            return self.call(f, [fn.self_] + list(args), kwargs)
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            self.used_models.add(getattr(fn, "__qualname__", None) or repr(fn))
            return m(self, *args, **kwargs)
        if fn is typing.cast: return args[1]
        if fn is logging.getLogger: return NullLog()
        if isinstance(fn, types.FunctionType):
            qn = f"{fn.__module__}.{fn.__qualname__}"
            c = self.contracts.get(qn)
            if c is not None:
                self.used_contracts.add(qn)
                return c(self, *args, **kwargs)
            if in_repo(fn):
                return self.call_real(fn, args, kwargs)
            return self.native(fn, args, kwargs)
        if isinstance(fn, Closure):
            return self.run_fn(fn.info, args, kwargs, fn.defaults, fn.kwdefaults, fn.frame, fn.frame.globals, None, {}, fn.name)
        if isinstance(fn, NativeMethod):
            from . import methods
            return methods.call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if typing.get_origin(fn) is not None and isinstance(typing.get_origin(fn), type):
            return self.instantiate(typing.get_origin(fn), args, kwargs)
        if isinstance(fn, Ext):
            m = getattr(fn, "m___call__", None)
            if m: return m(self, *args, **kwargs)
            raise Unsupported(f"{type(fn).__name__} is not callable")
        if isinstance(fn, Obj):
            f = self.lookup(fn.cls, "__call__")
            if f is None: self.raise_py(TypeError, "not callable")
            return self.call(BoundMethod(f, fn), args, kwargs)
        if isinstance(fn, functools.partial):
            kw = {k: self.wrap(v) for k, v in fn.keywords.items()}
            kw.update(kwargs)
            return self.call(self.wrap(fn.func), [self.wrap(a) for a in fn.args] + list(args), kw)
        if isinstance(fn, types.BuiltinFunctionType):
            from . import methods
            r = methods.builtin(self, fn, args, kwargs)
            if r is not methods.NOPE: return r
            return self.native(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [self.wrap(fn.__self__)] + list(args), kwargs)
        if isinstance(fn, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
            from . import methods
            return methods.call_method(self, args[0], fn.__name__, args[1:], kwargs)
        if isinstance(fn, SVal):
            h = getattr(self, "opaque_call", None)
            if h: return h(fn, args, kwargs)
            raise Unsupported(f"call of opaque {fn!r}")
        if fn is None:
            self.raise_py(TypeError, "'NoneType' object is not callable")
        if callable(fn): return self.native(fn, args, kwargs)
        raise Unsupported(f"call of {fn!r}")

    def native(self, fn, args, kwargs):
        if not all(is_plain(a) for a in args) or not all(is_plain(a) for a in kwargs.values()):
            raise Unsupported(f"call of external {getattr(fn, '__qualname__', fn)!r} on symbolic arguments")
        name = f"{getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)}"
        from . import methods
        if not methods.native_ok(fn):
            raise Unsupported(f"external function {name} is not modelled")
        try:
            return self.wrap(fn(*[to_native(a) for a in args], **{k: to_native(a) for k, a in kwargs.items()}))
        except Exception as e:
            self.raise_py(type(e), *[str(x) for x in e.args])

    def call_real(self, fn, args, kwargs):
        info = fn_info(fn)
        self.inlined.add(f"{fn.__module__}.{fn.__qualname__}")
        cv, cell_cls = {}, None
        for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                c = cell.cell_contents
            except ValueError:
                continue
            if nm == "__class__": cell_cls = c
            else: cv[nm] = self.wrap(c)
        if cell_cls is None and info.mangle:
            # find the defining class through the qualified name
            cell_cls = None
        defaults = [self.wrap(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.wrap(d) for k, d in (fn.__kwdefaults__ or {}).items()}
        return self.run_fn(info, args, kwargs, defaults, kwd, None, fn.__globals__, cell_cls, cv, fn.__qualname__)

    def run_fn(self, info, args, kwargs, defaults, kwdefaults, parent, globals_, cell_cls, cv, name):
        node = info.node
        loc = self.bind_args(node, args, kwargs, defaults, kwdefaults, name)
        fr = Frame(loc, parent, globals_, info.mangle, cell_cls if cell_cls else (parent.cls_cell if parent else None), cv, name)
        fr.num = len(self.ctx.frames)
        self.ctx.frames.append(fr)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        is_gen = _is_generator(node)
        if isinstance(node, ast.AsyncFunctionDef):
            if is_gen: raise Unsupported("async generator")
            return Coro(lambda: self.exec_body(node, fr), name)
        if is_gen:
            fr.yields = MList(self.ctx, [])
            if self.generators: return self.generators(name, lambda: self.exec_body(node, fr))
            self.ctx.notes.append("generator functions are run to completion when called")
            self.exec_body(node, fr)
            return fr.yields
        return self.exec_body(node, fr)

    def exec_body(self, node, fr):
        if self.depth >= self.max_depth:
            raise Unsupported("inlining depth (recursion)")
        self.depth += 1
        try:
            self.block(node.body, fr)
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        for i, p in enumerate(pos):
            if i < len(args):
                loc[p] = args[i]
                if p in kwargs: self.raise_py(TypeError, f"{name}() got multiple values for argument '{p}'")
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                di = i - (len(pos) - len(defaults))
                if di >= 0: loc[p] = defaults[di]
                elif star is not None: raise Unsupported("opaque ** into named parameters")
                else: self.raise_py(TypeError, f"{name}() missing argument '{p}'")
        extra = args[len(pos):]
        if a.vararg: loc[a.vararg.arg] = tuple(extra)
        elif extra: self.raise_py(TypeError, f"{name}() takes {len(pos)} positional arguments")
        for x in a.kwonlyargs:
            if x.arg in kwargs: loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults: loc[x.arg] = kwdefaults[x.arg]
            else: self.raise_py(TypeError, f"{name}() missing keyword argument '{x.arg}'")
        if a.kwarg:
            loc[a.kwarg.arg] = MDict(self.ctx, dict(kwargs))
            if star is not None: raise Unsupported("opaque ** into **kwargs")
        elif kwargs:
            self.raise_py(TypeError, f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        return loc

    # ---------------------------------------------------------------- instantiation
    def instantiate(self, cls, args, kwargs):
        from . import methods
        if cls in self.singletons: return self.singletons[cls]
        r = methods.builtin(self, cls, args, kwargs)
        if r is not methods.NOPE: return r
        if issubclass(cls, BaseException):
            o = Obj(self.ctx, cls, {"args": tuple(args)})
            f = self.lookup(cls, "__init__")
            if isinstance(f, types.FunctionType) and in_repo(f):
                self.call(f, [o] + list(args), kwargs)
            return o
        if issubclass(cls, enum.Enum) and len(args) == 1 and isinstance(args[0], SInt):
            for m in cls:
                if isinstance(m.value, int) and self.ctx.branch(args[0].z == m.value): return m
            self.raise_py(ValueError, f"not a valid {cls.__name__}")
        if issubclass(cls, enum.Enum): return self.native(cls, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, pydantic.BaseModel):
            return self.pydantic_new(cls, args, kwargs)
        if type(cls).__name__ == "SingletonType":
            real = type(cls)._instances.get(cls)
            if real is not None and not args: return self.wrap(real)
        if cls_in_repo(cls):
            o = Obj(self.ctx, cls)
            if hasattr(cls, "__dataclass_fields__"):
                self.dataclass_init(o, cls, args, kwargs)
                return o
            f = self.lookup(cls, "__init__")
            if isinstance(f, types.FunctionType): self.call(f, [o] + list(args), kwargs)
            elif args or kwargs: raise Unsupported(f"constructor of {cls.__name__}")
            return o
        return self.native(cls, args, kwargs)

    def dataclass_init(self, o, cls, args, kwargs):
        names = list(cls.__dataclass_fields__)
        for n, a in zip(names, args): o.fields[n] = a
        for k, v in kwargs.items():
            if k not in names: self.raise_py(TypeError, k)
            o.fields[k] = v
        for n, f in cls.__dataclass_fields__.items():
            if n not in o.fields:
                import dataclasses
                if f.default is not dataclasses.MISSING: o.fields[n] = self.wrap(f.default)
                elif f.default_factory is not dataclasses.MISSING: o.fields[n] = self.call(f.default_factory, [], {})
                else: self.raise_py(TypeError, n)

    def pydantic_new(self, cls, args, kwargs):
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        if args: self.raise_py(TypeError, "BaseModel takes no positional arguments")
        if star is not None:
            if kwargs: raise Unsupported("mixed ** and keywords into a pydantic model")
            ok = z3.Function("valid_" + cls.__name__, U, B)(star.val.z)
            if not self.ctx.branch(ok):
                raise PyExc(Obj(self.ctx, pydantic.ValidationError, {"args": (), "title": cls.__name__}))
            t = z3.Function("new_" + cls.__name__, U, U)(star.val.z)
            return self.val(t, cls)
        fields = {}
        for n, f in cls.model_fields.items():
            if n in kwargs:
                v = kwargs.pop(n)
                if not self.compatible(v, f.annotation):
                    if self.ctx.choose("invalid_" + n):
                        raise PyExc(Obj(self.ctx, pydantic.ValidationError, {"args": (), "title": cls.__name__}))
                fields[n] = v
            elif not f.is_required():
                if f.default_factory is not None: fields[n] = self.call(self.wrap(f.default_factory), [], {})
                else: fields[n] = self.fresh_default(f.default)
            else:
                raise PyExc(Obj(self.ctx, pydantic.ValidationError, {"args": (), "title": cls.__name__}))
        return Obj(self.ctx, cls, fields)

    def fresh_default(self, d):
        if type(d) is dict: return MDict(self.ctx, {k: self.wrap(v) for k, v in d.items()})
        if type(d) is list: return MList(self.ctx, [self.wrap(v) for v in d])
        return self.wrap(d)

    def compatible(self, v, ann):
        if ann is typing.Any: return True
        origin = typing.get_origin(ann)
        if origin in (typing.Union, types.UnionType):
            if isinstance(v, SVal) and v.nullable and type(None) in typing.get_args(ann): v = SVal(v.z, v.cls)
            return any(self.compatible(v, a) for a in typing.get_args(ann))
        if ann is type(None): return v is None
        if isinstance(origin, type): ann = origin
        if not isinstance(ann, type): return False
        if isinstance(v, SVal):
            return v.cls is not None and not v.nullable and issubclass(v.cls, ann)
        if isinstance(v, SInt): return ann in (int, float)
        if isinstance(v, SBool): return ann in (bool, int)
        if isinstance(v, Obj): return issubclass(v.cls, ann)
        if isinstance(v, MDict): return ann is dict
        if isinstance(v, MList): return ann is list
        if isinstance(v, Ext): return v.pycls is not None and issubclass(v.pycls, ann)
        if isinstance(v, ann): return True
        if ann is float and isinstance(v, int): return True
        return False

    # ---------------------------------------------------------------- coroutines
    def await_(self, v):
        if isinstance(v, Coro):
            if v.done: self.raise_py(RuntimeError, "cannot reuse already awaited coroutine")
            v.done = True
            return v.thunk()
        if isinstance(v, Ext) and hasattr(v, "await_"):
            return v.await_(self)
        if v is None or isinstance(v, PLAIN):
            self.raise_py(TypeError, "object can't be used in 'await' expression")
        raise Unsupported(f"await of {v!r}")

    def yield_point(self, label):
        """Other tasks may run here; the task may be cancelled here."""
        if self.on_yield: self.on_yield(self, label)
        if self.cancellable and self.ctx.choose("cancel_" + label):
            self.ctx.event("cancelled", at=label)
            raise PyExc(Obj(self.ctx, asyncio.CancelledError, {"args": ()}))

    def may_raise(self, label, upper=Exception, excluded=()):
        if self.ctx.choose("raise_" + label):
            e = UExc(self.ctx, upper, label, excluded)
            self.ctx.event("raised", at=label, exc=e)
            raise PyExc(e)

    def ctxvar_op(self, cv, name, a):
        var = cv.var
        d = self.ctxvars
        if name == "get":
            return d.get(var, None) if var in d or not a else a[0]
        if name == "set":
            old = d.get(var, _MISSING)
            self.ctx.setd(d, var, a[0])
            tok = Obj(self.ctx, contextvars.Token, {"old": old})
            return tok
        if name == "reset":
            if not isinstance(a[0], Obj) or a[0].cls is not contextvars.Token: self.raise_py(TypeError, "expected an instance of Token")
            if a[0].fields["old"] is _MISSING: self.ctx.deld(d, var)
            else: self.ctx.setd(d, var, a[0].fields["old"])
            return None
        raise Unsupported("ContextVar." + name)

    # ---------------------------------------------------------------- exceptions
    def exc_class(self, e):
        return e.cls if isinstance(e, Obj) else None

    def exc_match(self, e, c):
        if isinstance(c, tuple): return any(self.exc_match(e, x) for x in c)
        if not isinstance(c, type): raise Unsupported("except clause")
        if isinstance(e, Obj): return issubclass(e.cls, c)
        if isinstance(e, UExc):
            if issubclass(e.upper, c) or any(issubclass(y, c) for y in e.yes): return True
            if any(issubclass(c, n) for n in e.no): return False
            if not issubclass(c, e.upper): return False
            for y in e.yes:
                if not issubclass(c, y) and not issubclass(y, c): return False
            r = self.ctx.choose(f"{e.label}_is_{c.__name__}")
            e_list = "yes" if r else "no"
            self.ctx.log(("attr", e, e_list), getattr(e, e_list))
            setattr(e, e_list, getattr(e, e_list) + [c])
            return r
        raise Unsupported(f"except for {e!r}")

    def exc_str(self, e):
        if isinstance(e, UExc): return SVal(z3.Function("str_of", U, U)(e.term), str)
        a = e.fields.get("args", ())
        if len(a) == 1:
            return self.str_(a[0])
        if all(is_plain(x) for x in a):
            return "" if not a else str(to_native(a))
        return SVal(self.ctx.fresh_u("excstr"), str)

    def str_(self, v):
        if isinstance(v, str): return v
        if isinstance(v, Ext) and v.pycls is str and hasattr(v, "add_"): return v
        if isinstance(v, SVal):
            if v.cls is str and not v.nullable: return v
            m = v.cls and self.attr_models.get((v.cls, "__str__"))
            if m: return m(self, v)
            return self.val(z3.Function("str_of", U, U)(v.z), str)
        if isinstance(v, UExc): return self.exc_str(v)
        if isinstance(v, Obj):
            f = self.lookup(v.cls, "__str__")
            if isinstance(f, types.FunctionType) and in_repo(f):
                return self.call(BoundMethod(f, v), [], {})
            if issubclass(v.cls, BaseException): return self.exc_str(v)
            return self.val(z3.Function("str_of", U, U)(self.term(v)), str)
        if is_plain(v):
            return str(to_native(v))
        return self.val(z3.Function("str_of", U, U)(self.term(v)), str)

    def type_of(self, v):
        if isinstance(v, Obj): return v.cls
        if isinstance(v, SInt): return int
        if isinstance(v, SBool): return bool
        if isinstance(v, MList): return list
        if isinstance(v, MDict): return dict
        if isinstance(v, MSet): return set
        if isinstance(v, SVal) and v.cls and not v.nullable: return v.cls
        if isinstance(v, Ext) and v.pycls: return v.pycls
        if isinstance(v, (UExc, SVal)): return SVal(z3.Function("type_of", U, U)(self.term(v)))
        return type(v)

    # ================================================================ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} ({fr.fnname})")
        return m(s, fr)

    def st_Expr(self, s, fr): self.ev(s.value, fr)
    def st_Pass(self, s, fr): pass
    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.store_name(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]), fr)
    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            self.store_name(a.asname or a.name, self.wrap(getattr(m, a.name)), fr)
    def st_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value else None)
    def st_Break(self, s, fr): raise BreakSig()
    def st_Continue(self, s, fr): raise ContinueSig()
    def st_Global(self, s, fr): fr.global_names.update(s.names)
    def st_Nonlocal(self, s, fr): fr.nonlocal_names.update(s.names)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            store = lambda v: self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr(o, nm)
            store = lambda v: self.setattr(o, nm, v)
        elif isinstance(t, ast.Subscript):
            from . import methods
            o, k = self.ev(t.value, fr), self.ev_slice(t.slice, fr)
            cur = methods.getitem(self, o, k)
            store = lambda v: methods.setitem(self, o, k, v)
        else: raise Unsupported("augmented assignment target")
        rhs = self.ev(s.value, fr)
        if isinstance(cur, MList) and isinstance(s.op, ast.Add):
            from . import methods
            methods.list_extend(self, cur, rhs)
            store(cur)
            return
        from . import methods
        store(methods.binop(self, type(s.op).__name__, cur, rhs))

    def st_Delete(self, s, fr):
        from . import methods
        for t in s.targets:
            if isinstance(t, ast.Name): self.ctx.deld(fr.locals, t.id, owner=fr)
            elif isinstance(t, ast.Subscript):
                methods.delitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr); nm = self.mangle(t.attr, fr)
                if isinstance(o, Obj) and nm in o.fields: self.ctx.deld(o.fields, nm, owner=o)
                else: raise Unsupported("del attribute")

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)): self.block(s.body, fr)
        else: self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): self.raise_py(AssertionError)

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack: self.raise_py(RuntimeError, "No active exception to reraise")
            raise PyExc(self.exc_stack[-1])
        e = self.ev(s.exc, fr)
        if isinstance(e, type): e = self.instantiate(e, [], {})
        if isinstance(e, (Obj, UExc)):
            if isinstance(e, Obj) and not issubclass(e.cls, BaseException): self.raise_py(TypeError, "exceptions must derive from BaseException")
            raise PyExc(e)
        raise Unsupported(f"raise of {e!r}")

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as pe:
                handled = False
                for h in s.handlers:
                    c = BaseException if h.type is None else self.ev(h.type, fr)
                    if self.exc_match(pe.val, c):
                        handled = True
                        if h.name: self.store_name(h.name, pe.val, fr)
                        self.exc_stack.append(pe.val)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                        break
                if not handled: raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            if s.finalbody: self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody: self.block(s.finalbody, fr)

    def st_With(self, s, fr, is_async=False):
        self.with_items(s.items, s.body, fr, is_async)

    def st_AsyncWith(self, s, fr): self.st_With(s, fr, True)

    def with_items(self, items, body, fr, is_async):
        if not items:
            return self.block(body, fr)
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        ent, ext = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        r = self.call(self.getattr(cm, ent), [], {})
        if is_async: r = self.await_(r)
        if it.optional_vars is not None: self.assign(it.optional_vars, r, fr)
        def leave(a):
            x = self.call(self.getattr(cm, ext), a, {})
            return self.await_(x) if is_async else x
        try:
            self.with_items(items[1:], body, fr, is_async)
        except PyExc as pe:
            if not self.truth(leave([self.type_of(pe.val), pe.val, None])): raise
        except (ReturnSig, BreakSig, ContinueSig):
            leave([None, None, None]); raise
        else:
            leave([None, None, None])

    def st_FunctionDef(self, s, fr):
        f = self.make_closure(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.store_name(s.name, f, fr)
    st_AsyncFunctionDef = st_FunctionDef

    def make_closure(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return Closure(FnInfo(s, fr.mangle, ""), fr, defaults, kwd)

    def st_For(self, s, fr):
        from . import loops
        loops.run_for(self, s, fr)

    def st_While(self, s, fr):
        from . import loops
        loops.run_while(self, s, fr)

    def st_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match_pattern(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr); return

    def match_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue): return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, fr): return False
            if p.name: self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr): return any(self.match_pattern(q, v, fr) for q in p.patterns)
        raise Unsupported("match pattern")

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        from . import methods
        if isinstance(t, ast.Name): self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            methods.setitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is not None: return self.assign_starred(t.elts, star, v, fr)
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items): self.assign(e, x, fr)
        else: raise Unsupported("assignment target")

    def assign_starred(self, elts, star, v, fr):
        from . import methods
        after = len(elts) - star - 1
        if isinstance(v, tuple): v = MList(self.ctx, list(v))
        if not isinstance(v, MList): raise Unsupported("starred assignment")
        n = methods.seq_len(self, v)
        if self.ctx.branch(self.z(n) < star + after) if not isinstance(n, int) else n < star + after: self.raise_py(ValueError, "not enough values to unpack")
        mid = methods.getitem(self, v, slice(star, -after if after else None, None))
        if mid is v: mid = MList(self.ctx, list(v.items)) if not v.symbolic else MList(self.ctx, None, v.n, v.get)
        vals = [methods.getitem(self, v, i) for i in range(star)] + [mid] + [methods.getitem(self, v, i - after) for i in range(after)]
        for e, x in zip(elts, vals): self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)

    def format_(self, x, spec):
        if not isinstance(spec, str): raise Unsupported("symbolic format specification")
        if is_plain(x): return format(to_native(x), spec)
        m = self.models.get(("format", spec))
        return m(self, x) if m else self.val(z3.Function(f"format!{spec}", U, U)(self.term(x)), str)

    def unpack(self, v, n):
        if isinstance(v, tuple): items = list(v)
        elif isinstance(v, MList) and not v.symbolic: items = list(v.items)
        elif isinstance(v, SVal):
            h = getattr(self, "opaque_unpack", None)
            if h: return h(v, n)
            if v.cls is tuple:
                return [SVal(z3.Function(f"item{i}", U, U)(v.z), None, True) for i in range(n)]
            raise Unsupported("unpacking an opaque value")
        else: raise Unsupported(f"unpacking {v!r}")
        if n is not None and len(items) != n: self.raise_py(ValueError, "unpack")
        return items

    def store_name(self, name, v, fr):
        if name in fr.global_names:
            self.ctx.setd(self.ctx.overlay, (id(fr.globals), name), v)
        elif name in fr.nonlocal_names:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    self.ctx.setd(f.locals, name, v, owner=f); return
                f = f.parent
            raise Unsupported("nonlocal")
        else:
            self.ctx.setd(fr.locals, name, v, owner=fr)

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals and name not in f.global_names: return f.locals[name]
            if name in f.closure_vars: return f.closure_vars[name]
            f = f.parent
        if (id(fr.globals), name) in self.ctx.overlay: return self.ctx.overlay[(id(fr.globals), name)]
        k = (fr.globals.get("__name__"), name)
        if k in self.globals_override: return self.globals_override[k]
        if name in fr.globals: return self.wrap(fr.globals[name])
        if hasattr(builtins, name): return getattr(builtins, name)
        if name == "__class__" and fr.cls_cell: return fr.cls_cell
        self.raise_py(UnboundLocalError, name)

    def mangle(self, attr, fr):
        if fr.mangle and attr.startswith("__") and not attr.endswith("__"):
            return f"_{fr.mangle.lstrip('_')}{attr}"
        return attr

    # ================================================================ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__} ({fr.fnname})")
        return m(e, fr)

    def ex_Constant(self, e, fr): return e.value
    def ex_Name(self, e, fr): return self.load_name(self.mangle(e.id, fr) if e.id.startswith("__") and not e.id.endswith("__") else e.id, fr)
    def ex_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))
    def ex_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def ex_List(self, e, fr): return MList(self.ctx, self.elts(e.elts, fr))
    def ex_Set(self, e, fr):
        from . import methods
        return methods.make_set(self, self.elts(e.elts, fr))

    def elts(self, es, fr):
        from . import methods
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(methods.to_items(self, self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        from . import methods
        d = MDict(self.ctx, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                methods.call_method(self, d, "update", [o], {})
            else:
                kk = self.ev(k, fr)
                methods.setitem(self, d, kk, self.ev(v, fr))
        return d

    def ex_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return self.demote(v, False)
            if isinstance(e.op, ast.Or) and t: return self.demote(v, True)
        return v

    def demote(self, v, t):
        return t if isinstance(v, (SBool, bool)) else v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool): return SBool(z3.Not(v.z))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return SInt(-v.z) if isinstance(v, SInt) else -v if is_plain(v) else self._uns("unary -")
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and is_plain(v): return ~v
        raise Unsupported("unary operator")

    def _uns(self, m): raise Unsupported(m)

    def ex_BinOp(self, e, fr):
        from . import methods
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return methods.binop(self, type(e.op).__name__, a, b)

    def ex_Compare(self, e, fr):
        from . import methods
        left = self.ev(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = methods.compare(self, type(op).__name__, left, right)
            if i == len(e.ops) - 1: return v
            if not self.truth(v): return False
            left = right

    def ex_Call(self, e, fr):
        from . import methods
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.cls_cell is None: f = f.parent
            if f is None: raise Unsupported("super() without class")
            g = fr
            while g.parent is not None: g = g.parent
            selfname = next(iter(g.locals))
            return SuperProxy(f.cls_cell, g.locals[selfname])
        fn = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is not None:
                kwargs[k.arg] = self.ev(k.value, fr)
            else:
                o = self.ev(k.value, fr)
                if isinstance(o, MDict) and not o.symbolic: kwargs.update(o.d)
                elif isinstance(o, SVal):
                    if o.cls is not dict:
                        if o.cls is not None and not o.nullable:
                            self.raise_py(TypeError, "argument after ** must be a mapping")
                        # the value may not be a mapping
                        if not self.ctx.branch(z3.Function("is_mapping", U, B)(o.z)):
                            self.raise_py(TypeError, "argument after ** must be a mapping")
                    kwargs["**"] = Star(o)
                elif isinstance(o, Obj) or o is None or isinstance(o, PLAIN) or isinstance(o, MList):
                    self.raise_py(TypeError, "argument after ** must be a mapping")
                else: raise Unsupported("** argument")
        return self.call(fn, args, kwargs)

    def ex_Await(self, e, fr): return self.await_(self.ev(e.value, fr))

    def ex_Lambda(self, e, fr): return self.make_closure(e, fr)

    def ex_JoinedStr(self, e, fr):
        parts, tmpl, syms = [], [], []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value); tmpl.append(v.value); continue
            x = self.ev(v.value, fr)
            spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
            if v.conversion in (114, 97):
                s = repr(to_native(x)) if is_plain(x) else self.val(z3.Function("repr_of", U, U)(self.term(x)), str)
            elif spec != "" or isinstance(x, (int, float)) and not isinstance(x, bool) and not isinstance(x, enum.Enum):
                s = self.format_(x, spec)
            else:
                s = self.str_(x)
            if isinstance(s, str): parts.append(s); tmpl.append(s)
            else: parts.append(s); tmpl.append(None); syms.append(s)
        if not syms: return "".join(parts)
        return self.concat(parts)

    def ex_FormattedValue(self, e, fr):
        return self.str_(self.ev(e.value, fr))

    def concat(self, parts):
        """String concatenation; associative normal form over uninterpreted pieces."""
        flat = []
        for p in parts:
            if isinstance(p, SVal) and getattr(p, "pieces", None): flat.extend(p.pieces)
            else: flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str) and p == "": continue
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        if all(isinstance(p, str) for p in out): return "".join(out)
        if len(out) == 1: return out[0]
        sy = next((p for p in out if hasattr(p, "add_")), None)
        if sy is not None:
            r = out[0]
            for p in out[1:]: r = sy.add_(self, r, p)
            return r
        tmpl = "|".join(repr(p) if isinstance(p, str) else "{}" for p in out)
        syms = [p for p in out if not isinstance(p, str)]
        f = z3.Function("cat!" + tmpl, *([U] * len(syms)), U)
        t = f(*[self.term(p) for p in syms])
        v = self.val(t, str)
        if any(isinstance(p, str) for p in out): self.ctx.assume(truthy(t))
        v.pieces = out
        h = getattr(self, "concat_axiom", None)
        if h: h(v)
        return v

    def ex_Subscript(self, e, fr):
        from . import methods
        return methods.getitem(self, self.ev(e.value, fr), self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_ListComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, "list")

    def ex_GeneratorExp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, "list")

    def ex_SetComp(self, e, fr):
        from . import loops, methods
        return methods.make_set(self, methods.to_items(self, loops.comprehension(self, e, fr, "list")))

    def ex_DictComp(self, e, fr):
        from . import loops
        return loops.dict_comprehension(self, e, fr)

    def ex_Yield(self, e, fr):
        f = fr
        while f.yields is None: f = f.parent
        v = self.ev(e.value, fr) if e.value else None
        if self.sink:
            self.sink(v)
            return None
        from . import methods
        methods.call_method(self, f.yields, "append", [v], {})
        return None

    def ex_YieldFrom(self, e, fr):
        f = fr
        while f.yields is None: f = f.parent
        from . import methods
        if self.sink_from:
            self.sink_from(self.ev(e.value, fr))
            return None
        methods.list_extend(self, f.yields, self.ev(e.value, fr))
        return None

    def ex_Starred(self, e, fr): raise Unsupported("starred")


_GEN = {}


def _is_generator(node):
    if id(node) not in _GEN:
        r = False
        stack = list(ast.iter_child_nodes(node))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
            stack.extend(ast.iter_child_nodes(n))
        _GEN[id(node)] = (r, node)
    return _GEN[id(node)][0]
