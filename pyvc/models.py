"""Assumed contracts of builtins and numpy on symbolic values (cross-checked against the real libraries by
checks/selftest.py)."""
import builtins
import math
import operator

import numpy as np
import z3

from . import values as V
from .arrays import (SArr, SSel, bshape, compress, mask_selection, dim_eq, elementwise, from_concrete, fresh_array, getitem, isbool, reshape, row_elems,
                     setitem)
from .values import SV, Unsupported, as_bool, compare, concrete, ctx, is_sym, ite, kind, land, lnot, lor, mk, term


def dkind(dt):
    if dt is None:
        return "r"
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return "r"
    if k in "iu":
        return "i"
    if k == "b":
        return "b"
    return "r"


def shape_of(s):
    if isinstance(s, SArr):
        return tuple(row_elems(s))
    if isinstance(s, (tuple, list)):
        return tuple(concrete(x) for x in s)
    return (concrete(s),)


def set_width(a, dtype):
    """Integer arrays narrower than 64 bits: stored values must fit."""
    try:
        d = np.dtype(dtype)
    except TypeError:
        return
    if dtype is not None and d.kind in "iu" and (d.itemsize < 8 or d.kind == "u"):
        ii = np.iinfo(d)
        a.attrs["range"] = (int(ii.min), int(ii.max), str(d))
        a.attrs["dtype"] = d


def const_arr(v):
    def f(shape, dtype=None, **kw):
        k = dkind(dtype)
        val = {"i": int(v), "r": float(v), "b": bool(v)}[k]
        a = SArr(shape_of(shape), lambda *ix: val, k, "zeros" if v == 0 else "ones")
        set_width(a, dtype)
        if v == 0:
            a.total = 0.0
        return a
    return f


def to_real(x):
    if isinstance(x, (SArr, SSel)):
        return elementwise(to_real, x)
    if isinstance(x, SV):
        if x.k == "r":
            return x
        return SV(V.as_real(x), V.as_int(x))
    return float(x)


def to_int(x):
    if isinstance(x, (SArr, SSel)):
        return elementwise(to_int, x)
    if isinstance(x, SV):
        if x.k == "b":
            return SV(V.as_int(x))
        return V.trunc(x)
    return int(x)


def cast(x, dt):
    k = dkind(dt)
    return to_int(x) if k == "i" else to_real(x) if k == "r" else x


def as_arr(x):
    if isinstance(x, (SArr, SSel)):
        return x
    if isinstance(x, (list, tuple, np.ndarray)):
        return from_concrete(x)
    a = getattr(x, "attrs", None)
    if isinstance(a, dict) and ("special", "__array__") in a:
        return a[("special", "__array__")]
    return x


def table(I):
    T = {}
    sym = lambda *a: any(isinstance(x, (SV, SArr, SSel)) for x in a)

    def native_unless(sym_model):
        def f(nat):
            def g(*a, **k):
                from .interp import has_sym
                if has_sym(list(a)) or has_sym(k):
                    return sym_model(*a, **k)
                return nat(*a, **k)
            return g
        return f

    def reg(nat, model):
        T[nat] = native_unless(model)(nat)

    # ---- builtins
    def m_minmax(fn):
        def f(*a, key=None, default=None):
            if key is not None:
                raise Unsupported("min/max with key")
            if len(a) == 1:
                if isinstance(a[0], SArr):
                    seq = I.iteration(a[0])
                    if not isinstance(seq, list):
                        raise Unsupported("min/max of a symbolic array")
                    a = seq
                else:
                    a = list(a[0])
            r = a[0]
            for x in a[1:]:
                r = fn(r, x)
            return r
        return f
    reg(builtins.max, m_minmax(lambda a, b: ite(compare(">", b, a), b, a)))
    reg(builtins.min, m_minmax(lambda a, b: ite(compare("<", b, a), b, a)))
    reg(builtins.abs, lambda x: elementwise(lambda v: ite(compare("<", v, 0), -v, v), x) if isinstance(x, (SArr, SSel)) else abs(x))

    def m_len(x):
        x = compress(x)
        if isinstance(x, SArr):
            return x.shape[0]
        if isinstance(x, V.SV):
            raise TypeError("object of type scalar has no len()")
        from .interp import SIter, SymObj
        if isinstance(x, SIter):
            return x.n
        if isinstance(x, SymObj):
            return I.call_special(x, "__len__", [])
        if getattr(x, "pyvc_model", False):
            return x.length()
        return len(x)
    reg(builtins.len, m_len)

    def m_range(*a):
        from .interp import SRange
        a = [concrete(x) for x in a]
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    reg(builtins.range, m_range)
    from swiftsimio.optional_packages import prange

    def m_prange(*a):
        from .interp import SRange
        a = [concrete(x) for x in a]
        if len(a) == 1:
            return SRange(0, a[0], 1, True)
        return SRange(a[0], a[1], 1, True)
    T[prange] = m_prange

    def m_zip(*its):
        from .interp import SIter
        seqs = [I.iteration(i) for i in its]
        if not any(isinstance(s, SIter) for s in seqs):
            return list(zip(*seqs))
        n = None
        els = []
        for s in seqs:
            ln = s.n if isinstance(s, SIter) else len(s)
            n = ln if n is None else (n if dim_eq(n, ln) else V.smin(n, ln))
            if isinstance(s, SIter):
                els.append(s.elem)
            else:
                arr = from_concrete(s)
                els.append(lambda k, arr=arr: getitem(arr, k))
        return SIter(n, lambda k: tuple(f(k) for f in els))
    reg(builtins.zip, m_zip)

    def m_enumerate(it, start=0):
        from .interp import SIter
        s = I.iteration(it)
        if isinstance(s, SIter):
            return SIter(s.n, lambda k: (k + start, s.elem(k)))
        return list(enumerate(s, start))
    reg(builtins.enumerate, m_enumerate)
    reg(builtins.int, lambda x=0, *a: to_int(x))
    reg(builtins.float, lambda x=0.0: to_real(x))
    reg(builtins.bool, lambda x=False: I.truth(x))

    def m_round(x, n=None):
        if n is not None:
            if not is_sym(concrete(x)) and not is_sym(concrete(n)):
                return round(concrete(x), concrete(n))
            if is_sym(concrete(n)) or V.kind(x) != "r":
                raise Unsupported("round to digits")
            return to_real(V.rint(x * 10.0 ** concrete(n))) / 10.0 ** concrete(n)
        return V.rint(x)
    reg(builtins.round, m_round)

    def m_sum(x, start=0):
        s = I.iteration(x)
        if not isinstance(s, list):
            return T[np.sum](x)
        r = start
        for v in s:
            r = r + v
        return r
    reg(builtins.sum, m_sum)

    def m_any(x):
        if isinstance(x, SArr):
            return quant(x, False)
        s = I.iteration(x)
        if not isinstance(s, list):
            raise Unsupported("any over symbolic length")
        r = False
        for v in s:
            if kind(v) == "?":
                v = I.truth(v)
            r = lor(r, v)
        return r

    def m_all(x):
        if isinstance(x, SArr):
            return quant(x, True)
        s = I.iteration(x)
        if not isinstance(s, list):
            raise Unsupported("all over symbolic length")
        r = True
        for v in s:
            if kind(v) == "?":
                v = I.truth(v)
            r = land(r, v)
        return r
    T[builtins.any] = m_any
    T[builtins.all] = m_all

    def quant(a, forall):
        a = compress(a)
        dims = [concrete(s) for s in a.shape]
        if all(not is_sym(d) for d in dims) and np.prod(dims) <= 64:
            import itertools
            vs = [a.get(*ix) for ix in itertools.product(*[range(int(d)) for d in dims])]
            vs = [v if kind(v) == "b" else compare("!=", v, 0) for v in vs]
            return land(*vs) if forall else lor(*vs)
        c = ctx()
        c.n += 1
        qs = [z3.Int(f"q{j}!{c.n}") for j in range(a.ndim)]
        dom = z3.And(*[z3.And(q >= 0, q < term(d)) for q, d in zip(qs, dims)])
        body = as_bool(a.get(*[SV(q) for q in qs]))
        if forall:
            return mk(z3.ForAll(qs, z3.Implies(dom, body)))
        return mk(z3.Exists(qs, z3.And(dom, body)))

    def m_isinstance(x, t):
        from .interp import SymObj
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for q in ts:
            flat.extend(q.__args__ if hasattr(q, "__args__") and not isinstance(q, type) else [q])
        if isinstance(x, SymObj):
            return any(isinstance(q, type) and issubclass(x.cls, q) for q in flat)
        if isinstance(x, SArr):
            return any(q is (list if x.lst else np.ndarray) for q in flat)
        if isinstance(x, SSel):
            return any(q is np.ndarray for q in flat)
        if isinstance(x, SV):
            ok = {"i": (int, np.integer, np.int64), "r": (float, np.floating, np.float64), "b": (bool, np.bool_)}[x.k]
            return any(q in ok or q.__name__ in ("Number", "Integral", "Real") and x.k in "ir" for q in flat)
        if getattr(x, "pyvc_model", False) and hasattr(x, "isinstance"):
            return any(x.isinstance(q) for q in flat)
        return isinstance(x, tuple(flat))
    T[builtins.isinstance] = m_isinstance

    def m_hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except AttributeError:
            return False
    T[builtins.hasattr] = m_hasattr

    def m_getattr(o, n, *d):
        try:
            return I.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise
    T[builtins.getattr] = m_getattr
    T[builtins.setattr] = lambda o, n, v: I.setattr(o, n, v)

    def m_type(x):
        from .interp import SymObj
        if isinstance(x, SymObj):
            return x.cls
        if isinstance(x, SArr):
            return list if x.lst else np.ndarray
        if isinstance(x, SV):
            return {"i": int, "r": float, "b": bool}[x.k]
        return type(x)
    T[builtins.type] = m_type

    def m_issubclass(a, b):
        return issubclass(a, b)
    T[builtins.issubclass] = m_issubclass

    def m_list(x=()):
        if isinstance(x, SArr):
            r = x.copy()
            r.lst = True
            return r
        s = I.iteration(x)
        from .interp import SIter
        if isinstance(s, SIter):
            raise Unsupported("list() of symbolic length")
        r = list(s)
        if ctx().loops:
            ctx().local_objs.add(id(r))
        ctx().keep.append(r)
        return r
    T[builtins.list] = m_list
    T[builtins.tuple] = lambda x=(): x if isinstance(x, SArr) else tuple(I.iteration(x))
    T[builtins.dict] = lambda *a, **k: _dict(I, *a, **k)
    reg(builtins.slice, lambda *a: slice(*a))
    T[builtins.callable] = lambda x: True if type(x).__name__ in ("FuncVal", "Bound") else callable(x)
    T[builtins.map] = lambda f, *its: [I.call(f, list(a)) for a in zip(*[I.iteration(i) for i in its])]
    T[builtins.filter] = lambda f, it: [x for x in I.iteration(it) if I.truth(I.call(f, [x]) if f else x)]
    T[builtins.print] = lambda *a, **k: None
    reg(builtins.reversed, lambda x: _rev(I, x))

    def m_sorted(x, key=None, reverse=False):
        seq = I.iteration(x)
        if not isinstance(seq, (list, tuple)) or len(seq) > 5:
            raise Unsupported("sorted")
        out = []
        for v in seq:       # stable insertion; comparisons of symbolic keys split the path
            kv = I.call(key, [v]) if key is not None else v
            if kind(kv) not in "ir":
                raise Unsupported("sorted")
            i = len(out)
            while i > 0 and I.truth(compare("<" if not reverse else ">", kv, out[i - 1][0])):
                i -= 1
            out.insert(i, (kv, v))
        return [v for _, v in out]
    reg(builtins.sorted, m_sorted)
    T[builtins.id] = lambda x: id(x)
    reg(builtins.repr, lambda x: "<sym>")
    reg(builtins.str, lambda x="": "<sym>")

    # ---- math / numpy scalars
    for f in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.intp):
        reg(f, to_int)
    for f in (np.float32, np.float64):
        T[f] = native_unless(to_real)(lambda *a, f=f: V.canon(f(*a)))
    reg(np.bool_, lambda x: x)

    def ew1(g):
        return lambda x, **kw: elementwise(g, as_arr(x)) if isinstance(as_arr(x), (SArr, SSel)) else g(x)

    def ew2(g):
        return lambda x, y, **kw: elementwise(g, as_arr(x), as_arr(y)) if isinstance(as_arr(x), (SArr, SSel)) or isinstance(as_arr(y), (SArr, SSel)) else g(x, y)

    def fl(v):
        r = V.floor(v)
        return SV(z3.ToReal(r.t), r.t) if isinstance(r, SV) else float(r)

    def ce(v):
        r = V.ceil(v)
        return SV(z3.ToReal(r.t), r.t) if isinstance(r, SV) else float(r)
    def ro(v):
        r = V.rint(v)
        return SV(z3.ToReal(r.t), r.t) if isinstance(r, SV) else float(r)

    def np_round(x, decimals=0, out=None):
        if decimals != 0 or out is not None:
            raise Unsupported("round to digits")
        return ew1(ro)(x)
    reg(np.rint, ew1(ro))
    reg(np.round, np_round)
    reg(np.floor, ew1(fl))
    reg(np.ceil, ew1(ce))
    reg(math.floor, V.floor)
    reg(math.ceil, V.ceil)
    reg(np.sqrt, ew1(V.sqrt))
    reg(math.sqrt, V.sqrt)
    reg(np.abs, ew1(lambda v: ite(compare("<", v, 0), -v, v)))
    reg(np.fabs, ew1(lambda v: ite(compare("<", v, 0), -v, v)))
    reg(np.square, ew1(lambda v: v * v))
    reg(np.add, ew2(lambda a, b: a + b))
    reg(np.subtract, ew2(lambda a, b: a - b))
    reg(np.multiply, ew2(lambda a, b: a * b))
    reg(np.divide, ew2(lambda a, b: a / b))
    reg(np.power, ew2(lambda a, b: a ** b))
    reg(np.mod, ew2(lambda a, b: a % b))
    reg(np.minimum, ew2(V.smin))
    reg(np.maximum, ew2(V.smax))
    reg(np.logical_and, ew2(land))
    reg(np.logical_or, ew2(lor))
    reg(np.logical_not, ew1(lnot))
    reg(np.where, lambda c, *ab: _where(I, c, *ab))
    reg(np.isclose, lambda a, b, rtol=1e-5, atol=1e-8, **k: _isclose(a, b, rtol, atol))
    def trig(name):
        def f(v):
            q = ctx().angles.get(v.t.get_id()) if isinstance(v, SV) else None
            return q[name] if q else _uf(name, v)
        return f

    def arccos(v):
        """The angle in [0, pi] with the given cosine (defined on [-1, 1]): its sine is the root of 1 - v^2."""
        c = ctx()
        c.oblige(land(compare(">=", v, -1), compare("<=", v, 1)), "arccos is called on [-1, 1]", kind="safety")
        t = c.real("angle")
        s = c.real("sine")
        c.assume(land(s >= 0, compare("==", s * s, 1 - v * v)))
        c.angles[t.t.get_id()] = {"cos": v, "sin": s, "t": t}
        return t
    reg(np.sin, ew1(trig("sin")))
    reg(np.cos, ew1(trig("cos")))
    reg(np.arccos, ew1(arccos))

    def m_max(x, axis=None, **kw):
        x = as_arr(x)
        n = concrete(x.shape[0])
        if kw or axis is not None or x.ndim != 1 or is_sym(n):
            return _unsup("max")
        c = ctx()
        r = c.real("max")
        c.assume(land(*[r >= x.get(i) for i in range(n)]))
        c.assume(lor(*[compare("==", r, x.get(i)) for i in range(n)]))
        return r
    reg(np.max, m_max)

    def m_norm(x, **kw):
        x = as_arr(x)
        n = concrete(x.shape[0])
        if kw or x.ndim != 1 or is_sym(n):
            return _unsup("norm")
        s = 0
        for i in range(n):
            s = s + x.get(i) * x.get(i)
        r = V.sqrt(s)
        ctx().linalg.append(("norm", x, r))
        return r
    reg(np.linalg.norm, m_norm)

    def m_inv(x):
        h = getattr(I.job, "inv_hook", None)
        if h is None:
            return _unsup("inverse")
        return h(ctx(), as_arr(x))
    reg(np.linalg.inv, m_inv)

    T[np.logical_and.reduce] = None
    T[np.logical_or.reduce] = None
    del T[np.logical_and.reduce], T[np.logical_or.reduce]

    # ---- array creation
    T[np.zeros] = const_arr(0)
    T[np.ones] = const_arr(1)

    def m_empty(shape, dtype=None, **kw):
        a = fresh_array("empty", shape_of(shape), dkind(dtype))
        a.name = "empty"
        set_width(a, dtype)
        return a
    T[np.empty] = m_empty
    T[np.full] = lambda shape, v, dtype=None, **k: SArr(shape_of(shape), lambda *ix: v, kind(v) if kind(v) in "irb" else "r", "full")
    T[np.empty_like] = lambda a, **k: fresh_array("empty", as_arr(a).shape, as_arr(a).dt)
    T[np.zeros_like] = lambda a, **k: const_arr(0)(as_arr(a).shape, int if as_arr(a).dt == "i" else float)
    T[np.ones_like] = lambda a, **k: const_arr(1)(as_arr(a).shape, int if as_arr(a).dt == "i" else float)
    T[np.copy] = lambda a, **k: as_arr(a).copy() if isinstance(as_arr(a), SArr) else a

    def m_array(x, dtype=None, copy=True, **kw):
        x = as_arr(x)
        if isinstance(x, SSel):
            return x
        if not isinstance(x, SArr):
            return cast(x, dtype) if dtype is not None and isinstance(x, SV) else x
        r = x.copy() if copy else x
        if dtype is not None:
            k = dkind(dtype)
            if k != x.dt or k == "i":
                f = x.snapshot()
                r = SArr(x.shape, lambda *ix: cast(f(*ix), dtype), k, x.name)
        r.lst = False
        return r
    T[np.array] = native_lists(m_array, np.array)
    T[np.asarray] = native_lists(lambda x, dtype=None, **k: m_array(x, dtype, copy=False) if dtype is not None or not isinstance(x, SArr) else x, np.asarray)
    T[np.asanyarray] = T[np.asarray]
    reg(np.isscalar, lambda x: isinstance(x, SV))

    def m_squeeze(x):
        if isinstance(x, SV):
            return x
        if isinstance(x, SArr) and all(not is_sym(concrete(n)) for n in x.shape) and all(int(concrete(n)) == 1 for n in x.shape):
            return x.get(*(0 for _ in x.shape))
        raise Unsupported("squeeze")
    reg(np.squeeze, m_squeeze)
    T[np.atleast_1d] = lambda x: as_arr(x) if isinstance(as_arr(x), SArr) else from_concrete([x])

    def m_arange(*a, **k):
        a = [concrete(x) for x in a]
        if len(a) == 1:
            r = SArr((a[0],), lambda i: i, "i", "arange")
            r.attrs["inverse"] = lambda k: k
            return r
        if len(a) == 2:
            return SArr((a[1] - a[0],), lambda i: i + a[0], "i", "arange")
        return _unsup("arange step")
    T[np.arange] = lambda *a, **k: m_arange(*a)

    def m_sum_np(x, axis=None, **kw):
        x = as_arr(x)
        x = compress(x)
        if not isinstance(x, SArr):
            return x
        if axis is None and x.total is not None:
            return x.total
        dims = [concrete(d) for d in x.shape]
        if axis is None:
            if all(not is_sym(d) for d in dims) and np.prod(dims) <= 64:
                import itertools
                r = 0
                for ix in itertools.product(*[range(int(d)) for d in dims]):
                    v = x.get(*ix)
                    r = r + (SV(V.as_int(v)) if isinstance(v, SV) and v.k == "b" else v)
                return r
            return I.job.sum_of(x)
        ax = axis if axis >= 0 else x.ndim + axis
        d = dims[ax]
        if is_sym(d) or d > 16:
            raise Unsupported("sum over a symbolic axis")
        f = x.snapshot()

        def fn(*ix):
            r = 0
            for q in range(d):
                r = r + f(*ix[:ax], q, *ix[ax:])
            return r
        sh = x.shape[:ax] + x.shape[ax + 1:]
        return SArr(sh, fn, x.dt) if sh else fn()
    reg(np.sum, m_sum_np)
    reg(np.any, lambda x, **k: m_any(as_arr(x)))
    reg(np.all, lambda x, **k: m_all(as_arr(x)))

    def m_diff(x, axis=-1):
        x = compress(as_arr(x))
        f = x.snapshot()
        if x.ndim == 1:
            return SArr((x.shape[0] - 1,), lambda i: f(i + 1) - f(i), x.dt)
        if x.ndim == 2 and not is_sym(concrete(x.shape[1])):
            r = SArr((x.shape[0], concrete(x.shape[1]) - 1), lambda i, j: f(i, j + 1) - f(i, j), x.dt)
            return r
        return _unsup("diff")
    reg(np.diff, m_diff)
    reg(np.dot, lambda a, b, **k: _dot(as_arr(a), as_arr(b)))
    reg(np.matmul, lambda a, b, **k: _dot(as_arr(a), as_arr(b)))

    def m_cross(a, b):
        a, b = row_elems(as_arr(a)), row_elems(as_arr(b))
        return from_concrete([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    reg(np.cross, m_cross)
    T[np.eye] = lambda n, *a, **k: SArr((n, n), lambda i, j: ite(compare("==", i, j), 1.0, 0.0), "r", "eye")
    T[np.identity] = T[np.eye]

    def m_vstack(seq):
        rows = [as_arr(x) for x in seq]
        return SArr((len(rows),) + rows[0].shape, lambda i, *r: _pick(rows, i, r), rows[0].dt)
    reg(np.vstack, m_vstack)
    reg(np.stack, lambda seq, axis=0: m_vstack(seq) if axis == 0 else m_vstack(seq).T)
    reg(np.shape, lambda x: as_arr(x).shape if isinstance(as_arr(x), SArr) else ())
    reg(np.ndim, lambda x: as_arr(x).ndim if isinstance(as_arr(x), SArr) else 0)
    reg(np.size, lambda x: as_arr(x).size if isinstance(as_arr(x), SArr) else 1)

    def m_concat(seq, axis=0, **k):
        from .interp import SIter
        if isinstance(seq, SIter):
            if axis != 0:
                raise Unsupported("concatenate axis")
            return I.job.concat(seq)
        parts = [compress(as_arr(x)) for x in seq]
        if axis != 0:
            raise Unsupported("concatenate axis")
        offs, tot = [], 0
        for p in parts:
            offs.append(tot)
            tot = tot + p.shape[0]
        fs = [p.snapshot() for p in parts]

        def fn(i, *r):
            v = fs[-1](i - offs[-1], *r)
            for q in range(len(parts) - 2, -1, -1):
                v = ite(compare("<", i, offs[q + 1]), fs[q](i - offs[q], *r), v)
            return v
        return SArr((tot,) + parts[0].shape[1:], fn, parts[0].dt)
    reg(np.concatenate, m_concat)

    def m_split(x, at, axis=0):
        """Pieces x[a_{i-1}:a_i] for ascending positions a (an obligation)."""
        from .interp import SIter
        x, at = as_arr(x), compress(as_arr(at))
        if axis != 0 or not isinstance(at, SArr) or at.ndim != 1:
            raise Unsupported("split")
        f, n = at.snapshot(), at.shape[0]
        c = ctx()
        i = c.int("any")
        lo = lambda k: ite(compare("<=", k, 0), 0, f(k - 1))
        hi = lambda k: ite(compare("<", k, n), f(k), x.shape[0])
        c.oblige(z3.Implies(as_bool(land(i >= 0, i <= n)), as_bool(land(lo(i) <= hi(i), lo(i) >= 0, hi(i) <= x.shape[0]))),
                 "split positions are ascending and inside the array", kind="pre")
        g = x.snapshot()

        def piece(k):
            a = lo(k)
            return SArr((hi(k) - a,) + x.shape[1:], lambda p, *r: g(a + p, *r), x.dt, x.name)
        return SIter(n + 1, piece)
    reg(np.split, m_split)
    reg(np.argsort, lambda a, **k: I.job.argsort(compress(as_arr(a))))
    def m_sort(a, **k):
        a = as_arr(a)
        if a.ndim != 1:
            _unsup("sort")
        o = I.job.argsort(a)
        r = getitem(a, o)
        r.attrs["order"] = o
        return r
    reg(np.sort, m_sort)
    reg(np.lexsort, lambda keys, **k: I.job.lexsort([as_arr(x) for x in keys]))
    reg(np.cumsum, lambda a, **k: I.job.cumsum(compress(as_arr(a))))
    reg(np.nonzero, lambda a: (I.job.nonzero(as_arr(a)),))
    reg(np.flatnonzero, lambda a: I.job.nonzero(as_arr(a)))
    reg(np.take, lambda a, ix, axis=None, **k: getitem(as_arr(a), as_arr(ix)) if axis == 0 else _unsup("take"))
    reg(np.searchsorted, lambda a, v, side="left", **k: I.job.searchsorted(as_arr(a), as_arr(v), side))
    def m_reduce(f, xs, *init):
        if not isinstance(xs, (list, tuple)):
            from .interp import has_sym
            if has_sym([xs]):
                _unsup("reduce over a symbolic sequence")
            xs = list(xs)
        xs = list(init) + list(xs)
        if not xs:
            raise TypeError("reduce() of empty iterable with no initial value")
        r = xs[0]
        for x in xs[1:]:
            r = I.call(f, [r, x])
        return r
    import functools
    T[functools.reduce] = m_reduce
    import inspect
    T[inspect.signature] = lambda f, **k: inspect.signature(f.fn if hasattr(f, "fn") else f)
    T[operator.add] = lambda a, b: a + b
    T[operator.mul] = lambda a, b: a * b
    T[operator.itemgetter] = operator.itemgetter
    import warnings
    T[warnings.warn] = lambda *a, **k: None
    T[warnings.catch_warnings] = lambda *a, **k: _Null()
    T[warnings.filterwarnings] = lambda *a, **k: None
    T[warnings.simplefilter] = lambda *a, **k: None
    return T


class _Null:
    pyvc_model = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _dict(I, *a, **k):
    d = {}
    if a:
        x = a[0]
        if isinstance(x, dict):
            d.update(x)
        else:
            for kv in I.iteration(x):
                kk, v = kv
                d[kk] = v
    d.update(k)
    ctx().keep.append(d)
    if ctx().loops:
        ctx().local_objs.add(id(d))
    return d


def native_lists(model, nat):
    def f(x, *a, **k):
        from .interp import has_sym
        if not has_sym(x) and not isinstance(x, (list, tuple)):
            return nat(x, *a, **k)
        if isinstance(x, (list, tuple)) and not has_sym(x):
            return nat(x, *a, **k)
        return model(x, *a, **k)
    return f


def _pick(rows, i, r):
    i = concrete(i)
    if not is_sym(i):
        return rows[i].get(*r)
    v = rows[-1].get(*r)
    for q in range(len(rows) - 2, -1, -1):
        v = ite(compare("==", i, q), rows[q].get(*r), v)
    return v


def _unsup(m):
    raise Unsupported(m)


def _rev(I, x):
    s = I.iteration(x)
    if not isinstance(s, list):
        raise Unsupported("reversed of symbolic length")
    return s[::-1]


def _uf(name, v):
    f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
    return SV(f(V.as_real(v)))


def _isclose(a, b, rtol, atol):
    def g(x, y):
        d = ite(compare("<", x - y, 0), y - x, x - y)
        ay = ite(compare("<", y, 0), -y, y)
        return compare("<=", d, atol + rtol * ay)
    a, b = as_arr(a), as_arr(b)
    return elementwise(g, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else g(a, b)


def _where(I, c, *ab):
    c = as_arr(c)
    if len(ab) == 2:
        a, b = as_arr(ab[0]), as_arr(ab[1])
        return elementwise(ite, c, a, b) if any(isinstance(x, (SArr, SSel)) for x in (c, a, b)) else ite(c, a, b)
    return (I.job.nonzero(c),)


def _dot(a, b):
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return a * b
    fa, fb = a.snapshot(), b.snapshot()
    n = concrete(a.shape[-1])
    if is_sym(n) or n > 16:
        raise Unsupported("dot over a symbolic axis")
    if a.ndim == 1 and b.ndim == 1:
        r = 0
        for q in range(n):
            r = r + fa(q) * fb(q)
        return r
    if a.ndim == 2 and b.ndim == 2:
        def fn(i, j):
            r = 0
            for q in range(n):
                r = r + fa(i, q) * fb(q, j)
            return r
        return SArr((a.shape[0], b.shape[1]), fn)
    if a.ndim == 2 and b.ndim == 1:
        def fn1(i):
            r = 0
            for q in range(n):
                r = r + fa(i, q) * fb(q)
            return r
        return SArr((a.shape[0],), fn1)
    if a.ndim == 1 and b.ndim == 2:
        def fn2(j):
            r = 0
            for q in range(n):
                r = r + fa(q) * fb(q, j)
            return r
        return SArr((b.shape[1],), fn2)
    raise Unsupported("dot")


class _M:
    pyvc_model = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def attr_table(I):
    def reduce_model(fn, unit):
        def f(seq, axis=0, **k):
            if isinstance(seq, SArr):
                r = unit
                for x in I.iteration(seq):
                    r = fn(r, x)
                return r
            seq = [as_arr(x) for x in I.iteration(seq)]
            r = None
            for x in seq:
                r = x if r is None else (elementwise(fn, r, x) if isinstance(r, (SArr, SSel)) or isinstance(x, (SArr, SSel)) else fn(r, x))
            return r
        return _M(f)

    def at(o, name):
        if isinstance(o, SArr):
            if name == "shape":
                return (o.shape,)
            if name == "size":
                return (o.size,)
            if name == "ndim":
                return (o.ndim,)
            if name == "T":
                return (o.T,)
            if name == "dtype":
                return (o.attrs.get("dtype", np.dtype({"i": "int64", "r": "float64", "b": "bool"}[o.dt])),)
            if name == "sum":
                return (_M(lambda *a, **k: I.call(np.sum, [o] + list(a), k)),)
            if name == "copy":
                return (_M(lambda *a, **k: o.copy()),)
            if name == "append" and o.lst:
                return (_M(o.append),)
            if name == "astype":
                def astype(dt, **k):
                    kk = dkind(dt)
                    f = o.snapshot()
                    return SArr(o.shape, lambda *ix: cast(f(*ix), dt), kk, o.name)
                return (_M(astype),)
            if name == "transpose":
                return (_M(lambda *a: o.T),)
            if name == "any":
                return (_M(lambda **k: I.call(np.any, [o], k)),)
            if name == "all":
                return (_M(lambda **k: I.call(np.all, [o], k)),)
            if name == "mean":
                return (_M(lambda **k: I.job.mean_of(o)),)
            if name in ("min", "max"):
                return (_M(lambda **k: I.call(getattr(__import__("builtins"), name), [o])),)
            if name == "reshape":
                def to_shape(*a, **k):
                    if k or not a:
                        _unsup("arguments of reshape")
                    sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
                    return reshape(o, list(sh))
                return (_M(to_shape),)
            if name in ("flatten", "ravel"):
                if o.ndim == 1 and name == "flatten":
                    return (_M(lambda: o.copy()),)
            if name in o.attrs:
                return (o.attrs[name],)
            return None
        if isinstance(o, SSel):
            return at(compress(o), name)
        if isinstance(o, SV):
            if name in ("item",):
                return (_M(lambda: o),)
            if name == "shape":
                return ((),)
            if name == "ndim":
                return (0,)
            if name == "size":
                return (1,)
            if name == "dtype":
                return (np.dtype({"i": "int64", "r": "float64", "b": "bool"}[o.k]),)
            return None
        if o is np.logical_and and name == "reduce":
            return (reduce_model(land, True),)
        if o is np.logical_or and name == "reduce":
            return (reduce_model(lor, False),)
        if o is np.add and name == "reduce":
            return (_M(lambda s, **k: I.call(np.sum, [s], {})),)
        if type(o).__name__ == "SuperProxy":
            me, k, p = o._next(name)
            h = I.job.super_model(me, k, name)
            if h is not None:
                return (h,)
            from .interp import Bound, funcval
            if isinstance(p, staticmethod):
                p = p.__func__
                if I.in_repo(p):
                    return (funcval(p),)
            if I.in_repo(p):
                return (Bound(funcval(p), me),)
            if p in I.models:
                return (Bound(p, me),)
            raise Unsupported(f"no contract for inherited {k.__name__}.{name}")
        return None
    return at
