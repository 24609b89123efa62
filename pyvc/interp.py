"""Symbolic interpreter for the Python subset used by the code under verification.

The text interpreted is the AST of the function object that really runs (located by file and first line in /repo),
with numba/jit decorators dropped; repository decorators are applied."""
import ast
import contextlib
import builtins
import functools
import inspect
import math
import operator
import types

import numpy as np
import z3

from . import values as V
from .arrays import SArr, SSel, compress, elementwise, from_concrete, getitem, row_elems, setitem
from .values import (SV, CannotAttach, Infeasible, PathEnd, Unsupported, as_bool, compare, concrete, ctx, is_sym, ite,
                     kind, land, lnot, lor, mk)

import os as _os

REPO = _os.environ.get("PYVC_REPO", "/repo/")
_FILES = {}


def file_index(path):
    if path not in _FILES:
        src = open(path).read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault((line, n.name if isinstance(n, ast.FunctionDef) else "<lambda>"), []).append(n)
        _FILES[path] = idx
    return _FILES[path]


def unwrap(fn):
    while hasattr(fn, "py_func"):
        fn = fn.py_func
    return fn


class FuncVal:
    def __init__(self, node, glob, closure, name, qual, file, defaults=None, kwdefaults=None, native=None):
        self.node, self.glob, self.closure, self.name, self.qual, self.file = node, glob, closure, name, qual, file
        self.defaults, self.kwdefaults, self.native = defaults, kwdefaults, native
        self.__name__ = name

    def __repr__(self):
        return f"<FuncVal {self.qual}>"


_FV = {}


def funcval(fn):
    fn = unwrap(fn)
    if fn in _FV:
        return _FV[fn]
    code = fn.__code__
    path = code.co_filename
    cands = file_index(path).get((code.co_firstlineno, code.co_name), [])
    if len(cands) != 1:
        raise Unsupported(f"cannot locate the source of {fn.__qualname__}")
    closure = {}
    if fn.__closure__:
        for n, c in zip(code.co_freevars, fn.__closure__):
            try:
                closure[n] = c.cell_contents
            except ValueError:
                pass
    fv = FuncVal(cands[0], fn.__globals__, closure, fn.__name__, f"{fn.__module__}:{fn.__qualname__}", path,
                 fn.__defaults__, fn.__kwdefaults__, fn)
    _FV[fn] = fv
    return fv


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class SymObj:
    """An instance of a repository class (or a record) with symbolic attributes."""
    __array_ufunc__ = None

    def __init__(self, cls, attrs=None, name=None):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "attrs", dict(attrs or {}))
        object.__setattr__(self, "name", name or cls.__name__)

    def __repr__(self):
        return f"<SymObj {self.name}>"


def _dunder(name):
    def f(self, *a):
        r = INTERP.call_special(self, name, a)
        return r
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow neg lt le gt ge eq ne len getitem call "
           "and or invert contains iadd imul isub itruediv imod rmod matmul rmatmul abs").split():
    setattr(SymObj, f"__{_n}__", _dunder(f"__{_n}__"))
SymObj.__hash__ = object.__hash__


def _so_bool(self):
    r = INTERP.lookup_special(self, "__bool__")
    return True if r is None else bool(INTERP.call(r, []))


SymObj.__bool__ = _so_bool

INTERP = None


REFLECTED = {ast.Add: "__radd__", ast.Sub: "__rsub__", ast.Mult: "__rmul__", ast.Div: "__rtruediv__", ast.Pow: "__rpow__", ast.Mod: "__rmod__", ast.MatMult: "__rmatmul__"}
DIRECT = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Pow: "__pow__", ast.Mod: "__mod__", ast.MatMult: "__matmul__"}


class _Poison:
    def __repr__(self):
        return "<loop-carried value>"


POISON = _Poison()


CM_HELPER = contextlib.contextmanager(lambda: None).__code__


class GenCM:
    """The context manager that a call of a generator function under contextlib.contextmanager gives."""

    def __init__(self, fv, args, kwargs):
        self.fv, self.args, self.kwargs, self.used = fv, args, kwargs, False


class BreakS(BaseException):
    pass


class ContinueS(BaseException):
    pass


class ReturnS(BaseException):
    def __init__(self, v):
        self.v = v


class Frame:
    def __init__(self, fv, locals_):
        self.fv = fv
        self.locals = locals_
        self.nonlocals = {}
        self.parent = None
        self.cls = None


class SRange:
    def __init__(self, a, b, step=1, parallel=False):
        self.a, self.b, self.step, self.parallel = a, b, step, parallel


class SIter:
    """An iterable of symbolic length."""

    def __init__(self, n, elem, parallel=False, rng=None, lst=False):
        self.n, self.elem, self.parallel, self.rng, self.lst = n, elem, parallel, rng, lst


class GenFrame:
    """An enclosing summarised loop."""

    def __init__(self, node, uid, var, n, job, parallel, pc_len):
        self.node, self.uid, self.var, self.n, self.job, self.parallel, self.pc_len = node, uid, var, n, job, parallel, pc_len
        self.reductions = {}


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef,)):
                out.add(n.name)
    return out


def comp_targets(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.comprehension):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        out.add(m.id)
    return out


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "add",
            "discard", "fill", "popitem"}


def mutated_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            tgt = []
            if isinstance(n, ast.Assign):
                tgt = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt = [n.target]
            for t in tgt:
                for e in ast.walk(t):
                    if isinstance(e, (ast.Subscript, ast.Attribute)):
                        b = e
                        while isinstance(b, (ast.Subscript, ast.Attribute)):
                            b = b.value
                        if isinstance(b, ast.Name):
                            out.add(b.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
    return out


_PURE = (ast.Compare, ast.Name, ast.Constant, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Attribute, ast.Load, ast.And,
         ast.Or, ast.Not, ast.USub, ast.UAdd, ast.cmpop, ast.Add, ast.Sub, ast.Mult, ast.operator, ast.boolop, ast.unaryop)


def pure_expr(n):
    for m in ast.walk(n):
        if not isinstance(m, _PURE):
            return False
        if isinstance(m, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return False
        if isinstance(m, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in m.ops):
            return False
    return True


NATIVE_OK = ("builtins", "numpy", "math", "operator", "itertools", "functools", "collections", "unyt", "sympy", "re",
             "string", "copy", "packaging", "numbers", "fractions")


def has_sym(x, depth=0):
    if isinstance(x, (SV, SArr, SSel, SymObj, SIter, SRange, FuncVal, Bound)):
        return True
    if getattr(x, "pyvc_model", False):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(has_sym(e, depth + 1) for e in x)
        if isinstance(x, dict):
            return any(has_sym(e, depth + 1) for e in x.values()) or any(has_sym(e, depth + 1) for e in x.keys())
        if isinstance(x, slice):
            return any(has_sym(e, depth + 1) for e in (x.start, x.stop, x.step))
    return False


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.Mod: operator.imod}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
OPSYM = {ast.Add: "+=", ast.Sub: "-=", ast.Mult: "*=", ast.Div: "/=", ast.BitAnd: "&=", ast.BitOr: "|="}


class Interp:
    def __init__(self, job):
        global INTERP
        INTERP = self
        self.job = job
        self.depth = 0
        from . import models
        self.models = models.table(self)
        self.attr_models = models.attr_table(self)
        self.class_models = {}

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if getattr(f, "pyvc_model", False):
            return f(*args, **kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            r = m(*args, **kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, SymObj):
            return self.call_special(f, "__call__", args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if self.in_repo(fn):
                return self.call(funcval(fn), [f.__self__] + list(args), kwargs)
        fu = unwrap(f)
        if getattr(fu, "__code__", None) is CM_HELPER and self.in_repo(getattr(fu, "__wrapped__", None)):
            fv = funcval(fu.__wrapped__)
            k = self.job.contract_for(fv)
            return k(self, fv, args, kwargs) if k is not None else GenCM(fv, args, kwargs)
        if isinstance(fu, types.FunctionType) and self.in_repo(fu):
            return self.call_func(funcval(fu), args, kwargs)
        return self.call_native(f, args, kwargs)

    def in_repo(self, fn):
        fn = unwrap(fn)
        return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(REPO)

    def call_native(self, f, args, kwargs):
        mod = getattr(f, "__module__", None)
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, (list, dict, set)):
                self.note_mutation(s, getattr(f, "__name__", ""))
                return f(*args, **kwargs)
            if isinstance(s, (str, tuple, int, float, bytes, slice, range)):
                if isinstance(s, str) and f.__name__ in ("join", "format"):
                    return f(*[([str(e) for e in a] if isinstance(a, (list, tuple)) else a) for a in args], **kwargs)
                return f(*args, **kwargs)
            mod = type(s).__module__
        if has_sym(list(args)) or has_sym(kwargs):
            raise Unsupported(f"no model for {getattr(f, '__qualname__', f)} on symbolic values")
        if mod is None:
            mod = getattr(type(f), "__module__", "")
        if (mod or "").split(".")[0] in NATIVE_OK or (mod or "") == "":
            if getattr(f, "__name__", "") in ("open", "exec", "eval", "input", "__import__", "print"):
                if f.__name__ == "print":
                    return None
                raise Unsupported(f"call of {f.__name__}")
            return f(*args, **kwargs)
        raise Unsupported(f"no contract for external {mod}.{getattr(f, '__qualname__', f)}")

    def note_mutation(self, obj, how):
        if how in MUTATORS or how == "setitem":
            if ctx().loops and id(obj) not in ctx().local_objs:
                raise Unsupported("mutation of a python container inside a summarised loop")

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            try:
                return cls(*args, **kwargs)
            except BaseException:
                return cls()
        m = self.class_models.get(cls)
        if m is not None:
            return m(*args, **kwargs)
        if cls.__module__.startswith("swiftsimio"):
            new = inspect.getattr_static(cls, "__new__", None)
            if isinstance(new, staticmethod):
                new = new.__func__
            if isinstance(new, types.FunctionType) and self.in_repo(new):
                o = self.call_func(funcval(new), [cls] + list(args), kwargs)
            else:
                o = SymObj(cls)
            if isinstance(o, SymObj):
                init = self.lookup_static(cls, "__init__")
                if isinstance(init, types.FunctionType):
                    self.call_func(funcval(init), [o] + list(args), kwargs)
            return o
        return self.call_native(cls, args, kwargs)

    def lookup_static(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def lookup_special(self, o, name):
        mm = o.attrs.get(("special", name))
        if mm is not None:
            return mm
        f = self.lookup_static(o.cls, name)
        if isinstance(f, types.FunctionType):
            if self.in_repo(f):
                return Bound(funcval(f), o)
            if getattr(f, "pyvc_model", False):
                return Bound(f, o)
        return None

    def call_special(self, o, name, a, kw=None):
        f = self.lookup_special(o, name)
        if f is None:
            if name == "__eq__":
                return o is a[0]
            if name == "__ne__":
                e = self.lookup_special(o, "__eq__")
                if e is not None:
                    r = self.call(e, list(a))
                    return lnot(r) if r is not NotImplemented else r
                return o is not a[0]
            if name in ("__iadd__", "__imul__", "__isub__", "__itruediv__", "__imod__"):
                return NotImplemented
            if name.startswith("__r") or name in ("__add__", "__mul__", "__sub__", "__truediv__", "__pow__", "__lt__",
                                                  "__gt__", "__le__", "__ge__", "__mod__", "__matmul__"):
                return NotImplemented
            raise Unsupported(f"{o.name} has no model for {name}")
        return self.call(f, list(a), kw)

    def call_func(self, fv, args, kwargs):
        c = self.job.contract_for(fv)
        if c is not None:
            return c(self, fv, args, kwargs)
        return self.run_func(fv, args, kwargs)

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise TypeError(f"{fv.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                if k in loc:
                    raise TypeError(f"{fv.name}() got multiple values for argument '{k}'")
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise TypeError(f"{fv.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        d = fv.defaults or ()
        for n, v in zip(pos[len(pos) - len(d):], d):
            if n not in loc:
                loc[n] = v
        for n, v in (fv.kwdefaults or {}).items():
            if n not in loc:
                loc[n] = v
        for n in pos + kwo:
            if n not in loc:
                raise TypeError(f"{fv.name}() missing required argument: '{n}'")
        return loc

    def run_func(self, fv, args, kwargs):
        if self.depth > 40:
            raise Unsupported("call depth")
        self.job.inlined.add(fv.qual)
        fr = Frame(fv, self.bind(fv, args, kwargs))
        self.depth += 1
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.eval(fv.node.body, fr)
            for n in ast.walk(fv.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator function")
            try:
                self.block(fv.node.body, fr)
            except ReturnS as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        c = ctx()
        if hasattr(s, "lineno"):
            c.where = f"{fr.fv.file.replace(REPO, '')}:{s.lineno}"
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.locals[a.asname or a.name.split(".")[0]] = m

    def s_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            pkg = fr.fv.glob.get("__package__") or fr.fv.glob["__name__"].rpartition(".")[0]
            m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        else:
            m = importlib.import_module(s.module)
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(m, a.name)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            name = s.target.id
            c = ctx()
            if c.loops and name in c.loops[-1].reductions and op is ast.Add:
                v = self.eval(s.value, fr)
                self.job.reduction_event(c, name, v, fr)
                return
            cur = self.lookup(name, fr)
            if isinstance(cur, SArr) and c.loops and len(c.loops) > cur.depth:
                if op is not ast.Add:
                    raise Unsupported("array update in a summarised loop")
                v = self.eval(s.value, fr)
                self.job.array_reduction(c, cur, v, fr)
                return
            v = self.eval(s.value, fr)
            if v is None:
                raise TypeError("unsupported operand type(s): None")
            if isinstance(cur, SArr) and not cur.lst:
                r = elementwise(BINOPS[op], cur, v)
                self.inplace(cur, r, op, v)
                return
            if isinstance(cur, list) and op is ast.Add:
                self.note_mutation(cur, "append")
                cur += list(v)
                return
            fr_set(fr, name, self.binop(op, cur, v, inplace=True))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.eval_index(s.target.slice, fr)
            v = self.eval(s.value, fr)
            if isinstance(o, SArr):
                if op in OPSYM and op in (ast.Add, ast.Sub, ast.Mult):
                    setitem(o, k, v, OPSYM[op])
                else:
                    setitem(o, k, BINOPS[op](getitem(o, k), v))
                return
            cur = self.getitem(o, k)
            if isinstance(cur, SArr) and not cur.lst:
                self.inplace(cur, elementwise(BINOPS[op], cur, v), op, v)
                return
            self.setitem(o, k, self.binop(op, cur, v, inplace=True))
        else:
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            v = self.eval(s.value, fr)
            if isinstance(cur, SArr) and not cur.lst:
                self.inplace(cur, elementwise(BINOPS[op], cur, v), op, v)
                return
            self.setattr(o, s.target.attr, self.binop(op, cur, v, inplace=True))

    def inplace(self, cur, r, op, v):
        if cur.view_of is not None:
            setitem(cur.view_of[0], self.view_key(cur), r) if False else self.view_write(cur, r)
            return
        tot = cur.total
        cur.set_all(r.snapshot())
        if tot is not None:
            cur.total = tot * v if op is ast.Mult and not isinstance(v, SArr) else \
                tot / v if op is ast.Div and not isinstance(v, SArr) else None

    def view_write(self, view, r):
        hook = getattr(view, "write_back", None)
        if hook is None:
            raise Unsupported("in-place update through a view")
        hook(r)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, SymObj):
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                if isinstance(o, (dict, list)):
                    self.note_mutation(o, "setitem")
                    del o[k]
                else:
                    raise Unsupported("del item")

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Return(self, s, fr):
        raise ReturnS(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakS()

    def s_Continue(self, s, fr):
        raise ContinueS()

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, "handling", None)
            if e is None:
                raise Unsupported("bare raise")
            raise e
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = e()
        if isinstance(e, BaseException):
            raise e
        raise Unsupported("raise of a non-exception")

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError()

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Nonlocal(self, s, fr):
        raise Unsupported("nonlocal")

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Exception as e:
                if isinstance(e, (RecursionError, z3.Z3Exception)):
                    raise
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ts = self.eval(h.type, fr)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        match = isinstance(e, ts)
                    if match:
                        if h.name:
                            fr.locals[h.name] = e
                        old = getattr(fr, "handling", None)
                        fr.handling = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Unsupported):
            raise
        except BaseException:
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        if not s.items:
            return
        self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, GenCM):
            self.with_generator(cm, lambda v: (self.assign(it.optional_vars, v, fr) if it.optional_vars is not None else None,
                                               self.with_items(items[1:], body, fr)))
            return
        if isinstance(cm, SymObj) and ("special", "__enter__") in cm.attrs:
            ent, ext = cm.attrs[("special", "__enter__")], cm.attrs[("special", "__exit__")]
        else:
            ent = self.getattr(cm, "__enter__")
            ext = self.getattr(cm, "__exit__")
        v = self.call(ent, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except (PathEnd, Unsupported):
            raise
        except Exception as e:
            if not self.truth(self.call(ext, [type(e), e, None])):
                raise
        except (ReturnS, BreakS, ContinueS):
            self.call(ext, [None, None, None])
            raise
        else:
            self.call(ext, [None, None, None])

    def with_generator(self, cm, body):
        """`with cm: body` where cm is a call of a function under contextlib.contextmanager: the body runs at its yield."""
        if cm.used:
            raise Unsupported("context manager used again")
        cm.used = True
        fr = Frame(cm.fv, self.bind(cm.fv, cm.args, cm.kwargs))
        state = {"n": 0, "signal": None}

        def at_yield(v):
            state["n"] += 1
            if state["n"] > 1:
                raise RuntimeError("generator didn't stop")
            try:
                body(v)
            except (ReturnS, BreakS, ContinueS) as e:
                state["signal"] = e
        fr.on_yield = at_yield
        self.job.inlined.add(cm.fv.qual)
        self.depth += 1
        try:
            self.block(cm.fv.node.body, fr)
        except ReturnS:
            pass
        finally:
            self.depth -= 1
        if not state["n"]:
            raise RuntimeError("generator didn't yield")
        if state["signal"] is not None:
            raise state["signal"]

    def e_Yield(self, e, fr):
        f = getattr(fr, "on_yield", None)
        if f is None:
            raise Unsupported("generator function")
        f(None if e.value is None else self.eval(e.value, fr))
        return None

    def s_FunctionDef(self, s, fr):
        f = self.make_closure(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f])
        fr.locals[s.name] = f

    def make_closure(self, node, fr, name):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fv = FuncVal(node, fr.fv.glob, _Chain(fr), name, fr.fv.qual + ".<locals>." + name, fr.fv.file, defaults, kwd)
        return fv

    def s_ClassDef(self, s, fr):
        raise Unsupported("local class")

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        seq = self.iteration(it)
        if isinstance(seq, list):
            if isinstance(it, (SRange, range)) and len(seq) > self.job.native_limit:
                if getattr(it, "step", 1) != 1:
                    raise Unsupported("long range with a step")
                a = seq[0]
                seq = SIter(len(seq), lambda k, a=a: (k + a if a else k), getattr(it, "parallel", False), rng=(a, seq[-1] + 1))
            elif len(seq) > 400:
                seq = SIter(len(seq), _list_elem(seq))
            else:
                spec = None
                self.native_for(s, seq, fr)
                return
        spec = self.job.loop_spec(self, s, fr)
        if spec is not None:
            return self.inv_loop(s, fr, spec, seq)
        if ctx().mode == "bounded" or self.job.unroll(s, fr):
            return self.unroll_for(s, seq, fr)
        return self.generic_for(s, seq, fr)

    def native_for(self, s, seq, fr):
        broke = False
        for v in seq:
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except ContinueS:
                continue
            except BreakS:
                broke = True
                break
        if not broke:
            self.block(s.orelse, fr)

    def unroll_for(self, s, seq, fr):
        K = self.job.bound
        c = ctx()
        k = 0
        while True:
            if k >= K:
                c.assume(compare("<=", seq.n, k))
                self.job.used_bound = True
                break
            if not c.branch(as_bool(compare("<", k, seq.n))):
                break
            self.assign(s.target, seq.elem(k), fr)
            try:
                self.block(s.body, fr)
            except ContinueS:
                pass
            except BreakS:
                return
            k += 1
        self.block(s.orelse, fr)

    def generic_for(self, s, seq, fr):
        if s.orelse:
            raise Unsupported("for/else")
        c = ctx()
        c.n += 1
        uid = (c.n, s.lineno)
        names = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        accs = self.accumulators(s, fr, names)
        prefix = tuple(c.decisions[: c.pos])
        if self.job.witness is not None:
            w = self.job.witness(s, seq, fr)
            if w is not None:
                return self.witness_for(s, seq, fr, w, names)
        phase = c.choose(2)
        if phase == 0:
            i = c.int("it")
            if seq.rng is not None:
                c.assume(land(compare("<=", seq.rng[0], i), compare("<", i, seq.rng[1])))
            else:
                c.assume(land(compare(">=", i, 0), compare("<", i, seq.n)))
            g = GenFrame(s, uid, i, seq.n, self.job, seq.parallel, len(c.pc))
            g.rng = seq.rng
            g.prefix = prefix
            g.value = None
            for n in names:
                if n in accs:
                    g.reductions[n] = accs[n]
                elif n in fr.locals:
                    fr.locals[n] = POISON
            c.loops.append(g)
            self.job.loop_vars.append((g, fr))
            el = i if seq.rng is not None else seq.elem(i)
            g.value = el
            self.assign(s.target, el, fr)
            try:
                self.block(s.body, fr)
            except ContinueS:
                pass
            except BreakS:
                self.job.break_event(c, g)
            except ReturnS:
                raise Unsupported("return inside a summarised loop")
            raise PathEnd()
        for n in names:
            if n in accs:
                fr.locals[n] = self.job.reduced_value(c, uid, n, accs[n])
            elif n in fr.locals or n not in comp_targets(s.body):
                fr.locals[n] = POISON
        self.job.after_loop(c, uid, prefix)

    def witness_for(self, s, seq, fr, w, names):
        """Run only the iteration whose loop variable (index, for a non-range loop) is w, if it exists."""
        c = ctx()
        lo, hi = seq.rng if seq.rng is not None else (0, seq.n)
        for n in names:
            if n in fr.locals and not isinstance(fr.locals[n], (SArr, list)):
                fr.locals[n] = POISON
        if c.branch(as_bool(land(compare("<=", lo, w), compare("<", w, hi)))):
            self.assign(s.target, w if seq.rng is not None else seq.elem(w), fr)
            try:
                self.block(s.body, fr)
            except (ContinueS, BreakS):
                pass
        for n in names:
            if n in fr.locals and not isinstance(fr.locals[n], (SArr, list)):
                fr.locals[n] = POISON

    def accumulators(self, s, fr, names):
        """Locals only updated by `x += e` in the loop body and not otherwise read there."""
        out = {}
        for n in names:
            if n not in fr.locals or isinstance(fr.locals[n], (SArr, list)) or fr.locals[n] is POISON:
                continue
            ok, upd = True, 0
            aug = set()
            for b in s.body:
                for m in ast.walk(b):
                    if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and m.target.id == n:
                        if isinstance(m.op, ast.Add):
                            upd += 1
                            aug.add(id(m.target))
                        else:
                            ok = False
            for b in s.body:
                for m in ast.walk(b):
                    if isinstance(m, ast.Name) and m.id == n and id(m) not in aug:
                        ok = False
            if ok and upd:
                out[n] = fr.locals[n]
        # inherited accumulator of an enclosing loop
        c = ctx()
        if c.loops:
            for n in list(out):
                if n in c.loops[-1].reductions:
                    pass
        return out

    def inv_loop(self, s, fr, spec, seq=None):
        """Invariant rule; seq is None for while loops."""
        c = ctx()
        is_for = seq is not None
        names = assigned_names(s.body)
        if is_for:
            names |= assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        names -= comp_targets(s.body) - {n for n in names if n in fr.locals}
        muts = mutated_names(s.body)
        spec.prepare(self, fr)
        env = LoopEnv(fr, spec, self)
        for nm, f in spec.inv(env, 0 if is_for else None):
            c.oblige(f, f"loop invariant on entry: {nm}", kind="inv")
        phase = c.choose(2)
        havoc = {}
        for n in sorted(names | muts):
            if n not in fr.locals:
                continue
            v = fr.locals[n]
            fr.locals[n] = self.havoc(v, n, spec)
        k = None
        if is_for:
            k = c.int("k")
            if phase == 0:
                c.assume(land(compare(">=", k, 0), compare("<", k, seq.n)))
            else:
                c.assume(compare("==", k, smax0(seq.n)))
        for nm, f in spec.inv(env, k):
            c.assume(f)
        if phase == 0:
            if is_for:
                self.assign(s.target, seq.elem(k), fr)
            else:
                if not self.truth(self.eval(s.test, fr)):
                    raise PathEnd()
                v0 = spec.variant(env) if spec.variant else None
            try:
                self.block(s.body, fr)
            except ContinueS:
                pass
            except BreakS:
                return
            if spec.ghost is not None:
                for f in spec.ghost(env, k):
                    c.assume(f)
            for nm, f in spec.inv(env, k + 1 if is_for else None):
                c.oblige(f, f"loop invariant preserved: {nm}", kind="inv")
            if not is_for and v0 is not None:
                v1 = spec.variant(env)
                c.oblige(land(compare("<", v1, v0), compare(">=", v0, 0)), "loop terminates (variant decreases)",
                         kind="variant")
            raise PathEnd()
        if not is_for:
            if self.truth(self.eval(s.test, fr)):
                raise PathEnd()
        else:
            for n in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]):
                pass
        self.block(s.orelse, fr)

    def havoc(self, v, n, spec):
        c = ctx()
        v2 = spec.havoc_value(n, v) if hasattr(spec, "havoc_value") else None
        if v2 is not None:
            return v2
        if isinstance(v, SArr):
            if v.view_of is not None:
                raise Unsupported("loop modifies a view")
            if v.lst:
                ln = c.int(f"len_{n}")
                c.assume(compare(">=", ln, 0))
                v.shape = (ln,) + v.shape[1:]
            f = c.func(n, *(["i"] * v.ndim), v.dt)
            v.fn = lambda *ix: SV(f(*[V.term(i) for i in ix]))
            return v
        k = kind(v)
        if k == "i":
            return c.int(n)
        if k == "r":
            return c.real(n)
        if k == "b":
            return c.bool(n)
        if v is POISON:
            return v
        if isinstance(v, dict) and all(isinstance(e, SArr) for e in v.values()):
            for q, e in v.items():
                self.havoc(e, f"{n}_{q}", spec)
            return v
        if isinstance(v, (tuple, list)) and all(kind(e) in "irb" for e in v):
            return type(v)(self.havoc(e, n, spec) for e in v)
        raise Unsupported(f"cannot havoc local {n} of type {type(v).__name__}")

    def s_While(self, s, fr):
        spec = self.job.loop_spec(self, s, fr)
        if spec is not None:
            return self.inv_loop(s, fr, spec)
        K = self.job.while_bound
        k = 0
        while True:
            t = self.eval(s.test, fr)
            sym = is_sym(concrete(t))
            if sym and ctx().loops:
                raise Unsupported("while inside a summarised loop")
            if not self.truth(t):
                break
            if sym:
                k += 1
                if ctx().mode != "bounded" and not self.job.unroll(s, fr):
                    raise CannotAttach("while loop without an invariant")
                if k > K:
                    self.job.used_bound = True
                    raise PathEnd()
            try:
                self.block(s.body, fr)
            except ContinueS:
                continue
            except BreakS:
                return
        self.block(s.orelse, fr)

    def iteration(self, it):
        """Concrete list of values, or SIter."""
        if isinstance(it, SIter):
            return it
        if isinstance(it, SRange):
            a, b = concrete(it.a), concrete(it.b)
            if not is_sym(a) and not is_sym(b) and not is_sym(it.step):
                return list(range(a, b, it.step))
            if it.step != 1:
                raise Unsupported("symbolic range step")
            n = b - a
            n = V.smax(n, 0) if not ctx().entails(as_bool(compare(">=", n, 0))) else n
            return SIter(n, lambda k: (k + a if (is_sym(a) or a != 0) else k), it.parallel, rng=(a, b))
        if isinstance(it, SArr):
            n = concrete(it.shape[0])
            if not is_sym(n):
                return [getitem(it, i) for i in range(n)]

            def elem(k):
                if it.ndim == 1:
                    return it.get(k)
                if it.ndim == 2 and not is_sym(concrete(it.shape[1])):
                    f = it.snapshot()
                    w = concrete(it.shape[1])
                    row = SArr((w,), lambda j: f(k, j), it.dt, it.name + "_row")
                    return row
                return getitem(it, k)
            return SIter(it.shape[0], elem)
        if isinstance(it, SymObj):
            f = self.lookup_special(it, "__iter__")
            if f is not None:
                return self.iteration(self.call(f, []))
            raise Unsupported(f"iteration over {it.name}")
        if isinstance(it, SSel):
            return self.iteration(compress(it))
        if isinstance(it, (dict, types.MappingProxyType)):
            return list(it)
        if isinstance(it, (list, tuple, set, frozenset, range, str, types.GeneratorType, enumerate, zip, map, filter)) or \
                hasattr(it, "__next__") or type(it).__name__ in ("dict_items", "dict_keys", "dict_values"):
            return list(it)
        if isinstance(it, np.ndarray):
            return list(it)
        raise Unsupported(f"iteration over {type(it).__name__}")

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            c = ctx()
            if c.loops and t.id in c.loops[-1].reductions:
                raise Unsupported("reduction variable reassigned")
            fr_set(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                p = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                post = len(t.elts) - p - 1
                for e, x in zip(t.elts[:p], vals[:p]):
                    self.assign(e, x, fr)
                self.assign(t.elts[p].value, vals[p:len(vals) - post], fr)
                for e, x in zip(t.elts[p + 1:], vals[len(vals) - post:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise ValueError("unpack length mismatch")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, starred=False):
        seq = self.iteration(v)
        if isinstance(seq, SIter):
            if starred:
                raise Unsupported("starred unpack of symbolic length")
            if ctx().entails(as_bool(compare("==", seq.n, n))):
                return [seq.elem(i) for i in range(n)]
            raise Unsupported("unpack of symbolic length")
        return seq

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            return setitem(o, k, v)
        if isinstance(o, SymObj):
            return self.call_special(o, "__setitem__", [k, v])
        if getattr(o, "pyvc_model", False):
            return o.setitem(k, v)
        if isinstance(o, (dict, list)):
            self.note_mutation(o, "setitem")
            if is_sym(k):
                k = concrete(k)
            o[k] = v
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def setattr(self, o, name, v):
        if isinstance(o, SymObj):
            hook = o.attrs.get(("setattr", name)) or o.attrs.get(("setattr", "*"))
            if hook is not None:
                return hook(o, name, v)
            p = self.lookup_static(o.cls, name)
            if isinstance(p, property) and p.fset is not None:
                return self.call(funcval(p.fset), [o, v])
            o.attrs[name] = v
            if o.attrs.get(("frozen",)):
                ctx().oblige(False, f"{o.name} is not modified (frame)", kind="frame")
            return
        if getattr(o, "pyvc_model", False):
            return o.setattr(name, v)
        if isinstance(o, FuncVal):
            return
        if isinstance(o, SArr):
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ---------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def truth(self, v):
        if isinstance(v, SymObj) and ("special", "__bool__") in v.attrs:
            return self.truth(v.attrs[("special", "__bool__")]())
        if isinstance(v, SV):
            return bool(v)
        if isinstance(v, SArr):
            if v.ndim == 1 or v.lst:
                if v.lst:
                    return self.truth(compare(">", v.shape[0], 0))
            raise Unsupported("truth value of an array")
        if isinstance(v, (SSel,)):
            raise Unsupported("truth value of a selection")
        if isinstance(v, SIter) and v.lst:
            return self.truth(compare(">", v.n, 0))
        return bool(v)

    def partial(self, ok, exc):
        """An operation that raises `exc` unless `ok`; inside a comprehension of symbolic length the condition is collected."""
        c = ctx()
        if getattr(c, "partial", None) is not None:
            c.partial.append((ok, exc))
        elif not self.truth(ok):
            raise exc

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, n, fr):
        if n in fr.locals:
            v = fr.locals[n]
            if v is POISON:
                raise Unsupported(f"loop-carried value {n}")
            return v
        cl = fr.fv.closure
        if cl is not None and n in cl:
            v = cl[n]
            if v is POISON:
                raise Unsupported(f"loop-carried value {n}")
            return v
        ov = self.job.global_override(fr.fv.glob.get("__name__"), n)
        if ov is not None:
            return ov
        if n in fr.fv.glob:
            return V.canon(fr.fv.glob[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise NameError(n)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        r = self.elts(e.elts, fr)
        ctx().local_objs.add(id(r)) if ctx().loops else None
        ctx().keep.append(r)
        return r

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.iteration(self.eval(x.value, fr))
                if isinstance(s, SIter):
                    raise Unsupported("starred of symbolic length")
                out.extend(s)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        if ctx().loops:
            ctx().local_objs.add(id(d))
        ctx().keep.append(d)
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, fr)
                if has_sym(x):
                    out.append(f"<{x!r}>")
                else:
                    spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    out.append(format(x, spec))
        return "".join(out)

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        if op in (ast.Add,) and isinstance(a, list) and isinstance(b, list):
            r = a + b
            return r
        if op is ast.Mult and isinstance(a, list) and isinstance(b, SV):
            n = ctx().unique(b)
            if is_sym(n):
                raise Unsupported("list repeated a symbolic number of times")
            return a * n
        if op is ast.Mult and isinstance(b, list) and isinstance(a, SV):
            return self.binop(op, b, a)
        if (a is None and isinstance(b, (SV, SArr, SSel))) or (b is None and isinstance(a, (SV, SArr, SSel))):
            raise TypeError("unsupported operand type(s): None")
        if isinstance(a, str) and op is ast.Mod:
            return "<formatted>" if has_sym(b) else a % b
        if op is ast.MatMult and (isinstance(a, SymObj) or isinstance(b, SymObj)):
            return operator.matmul(a, b)
        if op is ast.MatMult or (isinstance(a, np.ndarray) and is_sym_any(b)) or (isinstance(b, np.ndarray) and is_sym_any(a)):
            a = from_concrete(a) if isinstance(a, np.ndarray) else a
            b = from_concrete(b) if isinstance(b, np.ndarray) else b
            if op is ast.MatMult:
                m = self.models.get(np.dot)
                return m(a, b)
        if (isinstance(a, (list, tuple)) and isinstance(b, (SArr, SSel))) or \
                (isinstance(b, (list, tuple)) and isinstance(a, (SArr, SSel))):
            return elementwise(BINOPS[op], a, b)
        if isinstance(b, SymObj) and isinstance(a, (SArr, SSel)):
            m = REFLECTED.get(op)
            f = m and self.lookup_special(b, m)
            if f is None:
                raise Unsupported(f"array {op.__name__} {b.name}")
            return self.call(f, [a])
        if isinstance(a, SymObj) and isinstance(b, (SArr, SSel)):
            m = DIRECT.get(op)
            f = m and self.lookup_special(a, m)
            if f is None:
                raise Unsupported(f"{a.name} {op.__name__} array")
            return self.call(f, [b])
        if isinstance(a, np.generic) and is_sym_any(b):
            a = a.item()
        if isinstance(b, np.generic) and is_sym_any(a):
            b = b.item()
        f = BINOPS.get(op)
        if inplace and op in IBINOPS and isinstance(a, SymObj):
            f = IBINOPS[op]
        if f is None:
            raise Unsupported(f"operator {op.__name__}")
        try:
            return f(a, b)
        except TypeError as e:
            if all(isinstance(x, (SV, SArr, SSel, int, float, np.ndarray)) for x in (a, b)):
                raise Unsupported(str(e))        # the generator's own arithmetic
            raise

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SV):
                return mk(z3.Not(as_bool(v)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return lnot(v) if isinstance(v, (SV, SArr, SSel, bool)) else ~v
        raise Unsupported("unary")

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], fr)
        for nxt in e.values[1:]:
            if isinstance(v, SV) and v.k == "b" and pure_expr(nxt):
                w = self.eval(nxt, fr)
                if kind(w) == "b":
                    v = land(v, w) if is_and else lor(v, w)
                    if v is True or v is False:
                        if v is not is_and:
                            return v
                    continue
                if self.truth(v) != is_and:
                    return v
                v = w
                continue
            t = self.truth(v)
            if t != is_and:
                return t if isinstance(v, SV) and v.k == "b" else v
            v = self.eval(nxt, fr)
        return v

    def e_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.truth(self.eval(e.test, fr)) else self.eval(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            x = self.cmp(op, left, right)
            if len(e.ops) == 1:
                return x
            res = land(res, x) if isinstance(x, (SV, bool)) and isinstance(res, (SV, bool)) else x
            if res is False:
                return False
            left = right
        return res

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return lnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else lnot(r)
        s = CMPS[type(op)]
        if isinstance(a, (SymObj,)) or isinstance(b, SymObj):
            f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq,
                 "!=": operator.ne}[s]
            return f(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if s in ("==", "!="):
                if len(a) != len(b) or type(a) is not type(b):
                    r = False
                else:
                    r = land(*[self.cmp(ast.Eq(), x, y) for x, y in zip(a, b)])
                return r if s == "==" else lnot(r)
        if isinstance(a, (SV, SArr, SSel)) or isinstance(b, (SV, SArr, SSel)):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, list) or isinstance(b, list):
                return elementwise(lambda x, y: compare(s, x, y), a, b)
            if getattr(a, "pyvc_model", False) or getattr(b, "pyvc_model", False):
                f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq,
                     "!=": operator.ne}[s]
                return f(a, b)
            return compare(s, a, b)
        return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq,
                "!=": operator.ne}[s](a, b)

    def identical(self, a, b):
        ia = getattr(a, "is_none", None)
        if ia is not None and b is None:
            return ia
        if isinstance(a, bool) or isinstance(b, bool):
            if kind(a) == "b" and kind(b) == "b":
                return compare("==", a, b)
        return a is b

    def contains(self, container, x):
        if isinstance(container, SymObj):
            return self.call_special(container, "__contains__", [x])
        if isinstance(container, SArr):
            raise Unsupported("`in` on a symbolic array")
        if isinstance(container, (list, tuple)) and has_sym(container):
            return lor(*[self.identical(x, e) or self.cmp(ast.Eq(), x, e) for e in container])
        if isinstance(x, (SV, SymObj)) and isinstance(container, (list, tuple)):
            return lor(*[self.cmp(ast.Eq(), x, e) for e in container])
        return x in container

    def e_Lambda(self, e, fr):
        return self.make_closure(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def eval_index(self, e, fr):
        if isinstance(e, ast.Tuple):
            return tuple(self.elts(e.elts, fr))
        return self.eval(e, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def siter_item(self, o, k):
        """An item or a slice of a list of symbolic length."""
        n = o.n
        if isinstance(k, slice):
            if k.step is not None and concrete(k.step) != 1:
                raise Unsupported("slice of a list with a step")
            pos = lambda x: ite(compare("<", x, 0), V.smax(n + x, 0), V.smin(x, n))
            a = pos(concrete(k.start)) if k.start is not None else 0
            b = pos(concrete(k.stop)) if k.stop is not None else n
            return SIter(smax0(b - a) if k.stop is not None or not concrete(a) == 0 else n, lambda q: o.elem(q + a), lst=True)
        if o.lst:
            if not is_sym(k) and k < 0:
                k = n + k
            if not self.truth(land(compare("<=", 0, k), compare("<", k, n))):
                raise IndexError("list index out of range")
        return o.elem(k)

    def getitem(self, o, k):
        if isinstance(o, (SArr, SSel)):
            return getitem(o, k)
        if isinstance(o, SymObj):
            return self.call_special(o, "__getitem__", [k])
        if getattr(o, "pyvc_model", False):
            return o.getitem(k)
        if isinstance(o, SIter):
            return self.siter_item(o, k)
        if isinstance(k, SV):
            k2 = concrete(k)
            if is_sym(k2) and isinstance(o, (list, tuple)):
                o = from_concrete(list(o))
                return getitem(o, k)
            k = k2
        if isinstance(k, (SArr, SSel)):
            if isinstance(o, (np.ndarray, list, tuple)):
                return getitem(from_concrete(o), k)
            raise Unsupported("symbolic index")
        if isinstance(k, slice):
            k = slice(*[concrete(x) for x in (k.start, k.stop, k.step)])
        if isinstance(k, tuple) and has_sym(k) and isinstance(o, np.ndarray):
            return getitem(from_concrete(o), k)
        if o is np.r_ and has_sym(k if isinstance(k, tuple) else (k,)):
            parts = k if isinstance(k, tuple) else (k,)
            if any(isinstance(x, SymObj) for x in parts) and hasattr(self.job, "concatenated"):
                return self.job.concatenated(parts)
            if any(isinstance(x, (slice, str)) for x in parts):
                raise Unsupported("np.r_ of a slice")
            return self.models[np.concatenate]([x if isinstance(x, (SArr, SSel)) else from_concrete([x]) if not isinstance(x, (list, tuple, np.ndarray)) else x for x in parts])
        if type(o).__name__ == "IndexExpression":
            return o[k]
        return o[k]

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        am = self.attr_models(o, name)
        if am is not None:
            return am[0]
        if isinstance(o, SymObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            hook = o.attrs.get(("getattr", name))
            if hook is not None:
                return hook(o)
            p = self.lookup_static(o.cls, name)
            if p is not None:
                if isinstance(p, property):
                    if self.in_repo(p.fget):
                        return self.call(funcval(p.fget), [o])
                    if p.fget in self.models:
                        return self.call(p.fget, [o])
                    raise Unsupported(f"external property {name}")
                if isinstance(p, functools.cached_property):
                    return self.call(funcval(p.func), [o])
                if isinstance(p, staticmethod):
                    return self.wrap(p.__func__)
                if isinstance(p, classmethod):
                    return Bound(self.wrap(p.__func__), o.cls)
                if isinstance(p, types.FunctionType):
                    if getattr(p, "__code__", None) is CM_HELPER:
                        return Bound(p, o)
                    if self.in_repo(p):
                        return Bound(funcval(p), o)
                    if p in self.models:
                        return Bound(p, o)
                    raise Unsupported(f"no contract for external method {o.cls.__name__}.{name}")
                if isinstance(p, types.MethodDescriptorType) and p in self.models:
                    return Bound(p, o)
                if not isinstance(p, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                    return p
            star = o.attrs.get(("getattr", "*"))
            if star is not None:
                return star(o, name)
            ga = self.lookup_static(o.cls, "__getattr__")
            if isinstance(ga, types.FunctionType) and self.in_repo(ga):
                return self.call(funcval(ga), [o, name])
            raise AttributeError(f"{o.name}.{name}")
        if isinstance(o, FuncVal):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            raise AttributeError(name)
        if isinstance(o, type) and o.__module__.startswith("swiftsimio"):
            p = self.lookup_static(o, name)
            if isinstance(p, classmethod):
                return Bound(self.wrap(p.__func__), o)
            if isinstance(p, staticmethod):
                return self.wrap(p.__func__)
            if isinstance(p, types.FunctionType) and self.in_repo(p):
                return funcval(p)
        if isinstance(o, types.ModuleType):
            ov = self.job.global_override(o.__name__, name)
            if ov is not None:
                return ov
            return V.canon(getattr(o, name))
        if isinstance(o, (SArr, SSel, SV)):
            real = (list if getattr(o, "lst", False) else np.ndarray,) if not isinstance(o, SV) else ({"i": int, "r": float, "b": bool}[o.k], np.generic)
            if any(hasattr(t, name) for t in real):
                raise Unsupported(f"no model of {type(o).__name__}.{name}")
            raise AttributeError(f"{type(o).__name__}.{name}")
        return getattr(o, name)

    def wrap(self, f):
        return funcval(f) if self.in_repo(f) else f

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.locals:
            if not e.args:
                return SuperProxy(self, fr)
            if len(e.args) == 2 and not e.keywords:
                return SuperProxy(self, fr, *self.elts(e.args, fr))
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        where = ctx().where
        ctx().where = f"{fr.fv.file.replace(REPO, '')}:{e.lineno}"
        if f is builtins.locals:
            return dict(fr.locals)
        r = self.call(f, args, kwargs)
        ctx().where = where
        return r

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr, e.elt)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, e.elt)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, e.elt)
        return set(r) if isinstance(r, list) else r

    def e_DictComp(self, e, fr):
        out = {}
        sub = Frame(fr.fv, dict(fr.locals))

        def rec(gs):
            if not gs:
                out[self.eval(e.key, sub)] = self.eval(e.value, sub)
                return
            g = gs[0]
            seq = self.iteration(self.eval(g.iter, sub))
            if isinstance(seq, SIter):
                raise Unsupported("dict comprehension of symbolic length")
            for v in seq:
                self.assign(g.target, v, sub)
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    rec(gs[1:])
        rec(e.generators)
        ctx().local_objs.add(id(out)) if ctx().loops else None
        ctx().keep.append(out)
        return out

    def eval_at(self, g, seq, sub, fr, elt, k):
        s2 = Frame(fr.fv, dict(sub.locals))
        self.assign(g.target, seq.elem(k), s2)
        return elt(s2) if callable(elt) else self.eval(elt, s2)

    def probe(self, seq, f, strict=False):
        """f at an arbitrary position of seq: (position, value, conditions under which it does not raise)."""
        c = ctx()
        p = c.int("p")
        npc = len(c.pc)
        c.solver.push()
        old, c.partial = getattr(c, "partial", None), []
        try:
            c.assume(land(compare(">=", p, 0), compare("<", p, seq.n)))
            n1 = len(c.pc)
            v, err = None, None
            try:
                v = f(p)
            except Unsupported:
                raise
            except Exception as e:
                err = e
            conds, split, extra = c.partial, c.pc[n1:], c.pc[npc:]
        finally:
            c.partial = old
            del c.pc[npc:]
            c.solver.pop()
        if err is not None:         # this position raises
            for x in extra:
                c.assume(x)
            raise err
        if (conds or strict) and split:     # what was assumed about this position must hold for every position
            rng = as_bool(land(compare(">=", p, 0), compare("<", p, seq.n)))
            if not all(c.entails(z3.Implies(rng, x)) for x in split):
                raise Unsupported("comprehension that may raise, or selects, and takes different branches")
        return p, v, conds

    def raise_where(self, p, n, conds):
        """Either no position raises, or one does."""
        c = ctx()
        if not conds:
            return
        ok = z3.And(*[as_bool(x) for x, _ in conds])
        rng = as_bool(land(compare(">=", p, 0), compare("<", p, n)))
        if c.choose(2):
            c.assume(z3.And(rng, z3.Not(ok)))
            if c.entails(False):
                raise PathEnd()
            for x, exc in conds:
                if not self.truth(x if isinstance(x, SV) else SV(x)):
                    raise exc
            raise PathEnd()
        q = z3.FreshConst(z3.IntSort(), "q")
        f = z3.substitute(z3.Implies(rng, ok), (p.t, q))
        pats = [t for t in triggers(f, q)]
        c.assume(z3.ForAll([q], f, patterns=pats) if pats else z3.ForAll([q], f))

    def filtered(self, g, seq, sub, fr):
        """[x for x in seq if ...]: the positions where the conditions hold, in order."""
        from .arrays import Selection
        c = ctx()

        def cond(s2):
            out = True
            for t in g.ifs:
                v = self.eval(t, s2)
                if isinstance(v, SymObj) and ("special", "__bool__") in v.attrs:
                    v = v.attrs[("special", "__bool__")]()
                elif isinstance(v, (SArr, SIter)) and v.lst:
                    v = compare(">", v.shape[0] if isinstance(v, SArr) else v.n, 0)
                elif not isinstance(v, SV):
                    if isinstance(v, (SymObj, SArr, SSel, SIter)):
                        raise Unsupported("condition of a comprehension")
                    v = bool(v)
                elif kind(v) != "b":
                    v = compare("!=", v, 0)
                out = land(out, v)
            return out
        p, v, conds = self.probe(seq, lambda k: self.eval_at(g, seq, sub, fr, cond, k), strict=True)
        if conds:
            raise Unsupported("condition that may raise")
        pred = as_bool(v)
        rng = as_bool(land(compare(">=", p, 0), compare("<", p, seq.n)))
        known = c.bindings.setdefault("filters", [])
        for n2, q, pred2, sel in known:        # the same positions: the same selection
            if c.entails(as_bool(compare("==", n2, seq.n))) and c.entails(z3.Implies(rng, pred == z3.substitute(pred2, (q.t, p.t)))):
                break
        else:
            sel = Selection(seq.n, lambda k: SV(z3.substitute(pred, (p.t, V.term(k)))))
            known.append((seq.n, p, pred, sel))
        return SIter(sel.count, lambda k: seq.elem(SV(sel.Z(V.term(k)))), lst=True)

    def comp(self, e, fr, elt):
        sub = Frame(fr.fv, dict(fr.locals))
        out = []
        g0 = e.generators[0]
        first = self.iteration(self.eval(g0.iter, sub))
        if isinstance(first, SIter):
            if len(e.generators) != 1:
                raise Unsupported("nested symbolic comprehension")
            c = ctx()
            if g0.ifs:
                first = self.filtered(g0, first, sub, fr)

            def at(k):
                s2 = Frame(fr.fv, dict(sub.locals))
                old, c.partial = getattr(c, "partial", None), []        # raised, if at all, where the comprehension was evaluated
                try:
                    self.assign(g0.target, first.elem(k), s2)
                    return self.eval(elt, s2)
                except Unsupported:
                    raise
                except Exception:       # the probe covers what raises
                    raise PathEnd()
                finally:
                    c.partial = old
            p, probe, conds = self.probe(first, lambda k: self.eval_at(g0, first, sub, fr, elt, k))
            self.raise_where(p, first.n, conds)
            lst = isinstance(e, ast.ListComp)
            if isinstance(probe, (slice, SymObj, SIter, str)) or (isinstance(probe, SArr) and is_sym(concrete(probe.shape[0]))) or \
                    (isinstance(probe, tuple) and any(kind(x) not in ("i", "r", "b") for x in probe)):
                return SIter(first.n, at, lst=lst)
            if isinstance(probe, (list, tuple)) or (isinstance(probe, SArr) and probe.ndim == 1 and not is_sym(concrete(probe.shape[0]))):
                w = len(row_elems(probe))

                def fn(k, j):
                    r = row_elems(at(k))
                    j = concrete(j)
                    if not is_sym(j):
                        return r[j]
                    v = r[-1]
                    for q in range(w - 2, -1, -1):
                        v = ite(compare("==", j, q), r[q], v)
                    return v
                return SArr((first.n, w), fn, kind(row_elems(probe)[0]), "comp", lst=True)
            return SArr((first.n,), at, kind(probe) if kind(probe) in "irb" else "r", "comp", lst=True)

        def rec(i, seq):
            g = e.generators[i]
            for v in seq:
                self.assign(g.target, v, sub)
                if not all(self.truth(self.eval(cn, sub)) for cn in g.ifs):
                    continue
                if i + 1 < len(e.generators):
                    s = self.iteration(self.eval(e.generators[i + 1].iter, sub))
                    if isinstance(s, SIter):
                        raise Unsupported("nested symbolic comprehension")
                    rec(i + 1, s)
                else:
                    out.append(self.eval(elt, sub))
        rec(0, first)
        if ctx().loops:
            ctx().local_objs.add(id(out))
        ctx().keep.append(out)
        return out


def _list_elem(seq):
    f = {}

    def elem(k):
        if "a" not in f:
            f["a"] = from_concrete(seq)
        return getitem(f["a"], k)
    return elem


def triggers(f, q):
    """Applications of uninterpreted functions to q, to instantiate a quantifier by."""
    out, seen, st = [], set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(x, q) for x in t.children()):
            out.append(t)
        st.extend(t.children())
    return out


def is_sym_any(x):
    return isinstance(x, (SV, SArr, SSel))


def smax0(n):
    return V.smax(n, 0)


def fr_set(fr, n, v):
    fr.locals[n] = v


class _Chain:
    """Closure environment of a nested function (reads the live enclosing frame)."""

    def __init__(self, fr):
        self.fr = fr

    def __contains__(self, n):
        return n in self.fr.locals or (self.fr.fv.closure is not None and n in self.fr.fv.closure)

    def __getitem__(self, n):
        if n in self.fr.locals:
            return self.fr.locals[n]
        return self.fr.fv.closure[n]


class SuperProxy:
    pyvc_model = True

    def __init__(self, interp, fr, owner=None, me=None):
        self.interp, self.fr, self.owner, self.me = interp, fr, owner, me

    def _next(self, name):
        if self.owner is not None:
            cls = self.me.cls if isinstance(self.me, SymObj) else self.me
            mro = list(cls.__mro__)
            for k in mro[mro.index(self.owner) + 1:]:
                if name in k.__dict__:
                    return self.me, k, k.__dict__[name]
            raise AttributeError(name)
        me = self.fr.locals[self.fr.fv.node.args.args[0].arg]
        cls = me.cls if isinstance(me, SymObj) else me
        owner = None
        nat = self.fr.fv.native
        qn = nat.__qualname__.rsplit(".", 1)[0].split(".")[-1] if nat else None
        mro = list(cls.__mro__)
        i = [k.__name__ for k in mro].index(qn) if qn in [k.__name__ for k in mro] else 0
        for k in mro[i + 1:]:
            if name in k.__dict__:
                return me, k, k.__dict__[name]
        raise AttributeError(name)


class LoopEnv:
    """Access to the locals of the frame a loop contract is attached to."""

    def __init__(self, fr, spec, interp):
        self._fr, self._spec, self._interp = fr, spec, interp

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        real = self._spec.names.get(n, n)
        v = self._fr.locals.get(real)
        if v is None or v is POISON:
            raise CannotAttach(f"loop contract refers to {n}")
        return v
