"""Contracts of the preparation of pictures (C18).

Quantities are opaque: numbers (in one unit per dimension), a frame, powers of base dimensions and of the scalings between the frames.
Their arithmetic and conversions are those of the contracts of C06-C09. Every quantity knows whether it belongs to the caller (the
dataset, the metadata, an argument): changing such a one in place, or through a view, is a failed obligation.

x mod L is x - q L with an integer q, 0 <= x - q L < L; the specification of a wrapped coordinate is that it lies in the box and that
it differs from the coordinate by a whole number of boxes (the sum of the q that were used)."""
import inspect
import itertools
from fractions import Fraction

import numpy as np
import z3

from checks.handles import Rec, mod, model
from pyvc.arrays import SArr, SSel, elementwise, from_concrete, getitem
from pyvc.interp import SIter, SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, PathEnd, Unsupported, as_bool, as_real, compare, concrete, ctx, is_sym, ite, kind, land, lnot, lor, mk, power, smax, term

V = "swiftsimio.visualisation."
TOOLS = V + "_vistools"


def add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


class World:
    """Factory of quantities and of models of numpy on them."""

    def __init__(self, job, I, c):
        self.job, self.I, self.c = job, I, c
        self.scales, self.wraps, self.used, self.eq = {}, {}, [], []
        self.cls = mod("swiftsimio.objects").cosmo_array
        self.names = dir(self.cls)
        job.concatenated = self.concatenated
        job.assumed.add("contract:arithmetic, comparison and conversion of cosmology-aware arrays are frame-correct (C06-C09)")
        self.numpy()

    # ---- quantities
    def scale_of(self, fac):
        r = 1
        for k, v in fac.items():
            if k not in self.scales:
                s = self.c.real("scale_" + k)
                self.c.assume(s > 0)
                self.scales[k] = s
            s = self.scales[k]
            if v != int(v):
                raise Unsupported("fractional power of a scaling")
            for _ in range(abs(int(v))):
                r = r * s if v > 0 else r / s
        return r

    def q(self, data, frame, dim, fac, owned=None, name="quantity", view=False):
        o = SymObj(self.cls, {}, name=name)
        o.data, o.frame, o.dim, o.fac, o.owned, o.view = None, None, None, None, None, None
        return self.fill(o, data, frame, dim, fac, owned, view)

    def fill(self, o, data, frame, dim, fac, owned, view):
        o.data, o.frame, o.dim, o.fac, o.owned, o.view = data, frame, {k: v for k, v in dim.items() if v}, {k: v for k, v in fac.items() if v}, owned, view
        A = o.attrs
        for n in self.names:
            A.setdefault(("getattr", n), self.unknown(n))
        A[("getattr", "comoving")] = lambda o: o.frame
        A[("getattr", "cosmo_factor")] = lambda o: self.factor(o.fac)
        A[("getattr", "units")] = lambda o: self.unit(o.dim)
        for n in ("v", "value", "d", "ndview"):
            A[("getattr", n)] = lambda o: o.data
        A[("getattr", "shape")] = lambda o: tuple(o.data.shape) if isinstance(o.data, SArr) else ()
        A[("getattr", "ndim")] = lambda o: o.data.ndim if isinstance(o.data, SArr) else 0
        A[("getattr", "size")] = lambda o: o.data.shape[0] if isinstance(o.data, SArr) and o.data.ndim == 1 else self.unknown("size")(o)
        A[("getattr", "T")] = lambda o: self.derive(o, self.transposed(o.data), view=True)
        A["transpose"] = model(lambda *a: self.derive(o, self.transposed(o.data), view=True) if not a else self.unknown("transpose")(o))
        A["to_comoving"] = model(lambda: self.converted(o, True))
        A["to_physical"] = model(lambda: self.converted(o, False))
        A["convert_to_comoving"] = model(lambda: self.convert(o, True))
        A["convert_to_physical"] = model(lambda: self.convert(o, False))
        A["to"] = model(lambda units=None, comoving=None, **k: self.to(o, units, comoving, k))
        A["to_value"] = model(lambda units=None, comoving=None, **k: self.to(o, units, comoving, k).data)
        A["convert_to_units"] = model(lambda u, **k: None if not k and getattr(u, "dim", None) == o.dim else self.unknown("conversion of units")(o))
        A["copy"] = model(lambda *a: self.derive(o, o.data))
        A["max"] = model(lambda: self.derive(o, self.extreme(o.data, smax)))
        A["view"] = model(lambda *a: self.share(o))
        A["compatible_with_comoving"] = model(lambda: SV(self.flag(o, "comoving")))
        A["compatible_with_physical"] = model(lambda: SV(self.flag(o, "physical")))
        S = lambda n, f: A.__setitem__(("special", f"__{n}__"), model(f))
        for n, f in (("add", self.plus), ("sub", self.minus), ("mul", self.times), ("truediv", self.over), ("mod", self.mod)):
            S(n, lambda x, f=f: f(o, x))
            S("r" + n, lambda x, f=f: f(x, o))
            if n != "floordiv":
                S("i" + n, lambda x, f=f: self.inplace(o, f(o, x)))
        S("pow", lambda x: self.pow(o, x))
        S("ipow", lambda x: self.inplace(o, self.pow(o, x)))
        S("neg", lambda: self.derive(o, elementwise(lambda v: -v, o.data) if isinstance(o.data, (SArr, SSel)) else -o.data))
        for n, s in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
            S(n, lambda x, s=s: self.cmp(s, o, x))
        S("getitem", lambda k: self.item(o, k))
        S("setitem", lambda k, v: self.owned_write(o) or self.unknown("setitem")(o))
        S("len", lambda: concrete(o.data.shape[0]))
        S("iter", lambda: [self.item(o, i) for i in range(self.concrete_len(o))])
        S("bool", lambda: self.I.truth(compare("!=", o.data, 0)) if not isinstance(o.data, (SArr, SSel)) else self.unknown("truth value")(o))
        S("matmul", lambda x: self.matmul(o, x))
        S("rmatmul", lambda x: self.matmul(x, o))
        return o

    def flag(self, o, n):
        if not hasattr(o, "flags"):
            o.flags = {}
        return o.flags.setdefault(n, self.c.bool(n + "_allowed").t)

    def unknown(self, n):
        def f(o):
            raise Unsupported(f"no model of {n} of a quantity")
        return f

    def concrete_len(self, o):
        n = concrete(o.data.shape[0]) if isinstance(o.data, SArr) else None
        if n is None or is_sym(n):
            raise Unsupported("iteration over particles")
        return n

    def is_q(self, x):
        return isinstance(x, SymObj) and hasattr(x, "frame") and x.cls is self.cls

    def derive(self, o, data, view=False, **kw):
        return self.q(data, kw.get("frame", o.frame), kw.get("dim", o.dim), kw.get("fac", o.fac), o.owned if view else None, "derived from " + o.name.replace("derived from ", ""), view)

    def transposed(self, d):
        if not isinstance(d, SArr) or d.ndim > 2:
            raise Unsupported("transpose")
        if d.ndim < 2:
            return d
        f = d.snapshot()
        return SArr((d.shape[1], d.shape[0]), lambda i, j: f(j, i), "r", "transposed")

    def extreme(self, d, f):
        n = concrete(d.shape[0])
        if is_sym(n) or d.ndim != 1:
            raise Unsupported("extreme value")
        r = d.get(0)
        for i in range(1, n):
            r = f(r, d.get(i))
        return r

    # ---- units and factors
    def unit(self, dim):
        u = SymObj(Rec, {}, name="unit")
        u.dim = dict(dim)
        S = lambda n, f: u.attrs.__setitem__(("special", f"__{n}__"), model(f))
        d = lambda x: x.dim if hasattr(x, "dim") else {} if kind(x) in "ir" else None
        S("pow", lambda p: self.unit({k: v * p for k, v in u.dim.items()}))
        S("mul", lambda x: self.unit(add(u.dim, x.dim)) if isinstance(x, SymObj) and not self.is_q(x) else NotImplemented if self.is_q(x) else self.unknown("unit times number")(u))
        S("truediv", lambda x: self.unit(add(u.dim, x.dim, -1)))
        S("rtruediv", lambda x: self.q(x, None, {k: -v for k, v in u.dim.items()}, {}) if kind(x) in "ir" else NotImplemented)
        S("eq", lambda x: isinstance(x, SymObj) and getattr(x, "dim", None) == u.dim)
        S("ne", lambda x: not (isinstance(x, SymObj) and getattr(x, "dim", None) == u.dim))
        return u

    def factor(self, fac):
        u = SymObj(Rec, {}, name="factor")
        u.fac = dict(fac)
        S = lambda n, f: u.attrs.__setitem__(("special", f"__{n}__"), model(f))
        S("pow", lambda p: self.factor({k: v * p for k, v in u.fac.items()}))
        S("mul", lambda x: self.factor(add(u.fac, x.fac)))
        S("truediv", lambda x: self.factor(add(u.fac, x.fac, -1)))
        return u

    # ---- frames
    def in_frame(self, data, frm, fac, to):
        if frm == to or frm is None or to is None or not fac:
            return data
        s = self.scale_of(fac)
        f = (lambda v: v * s) if to is False else (lambda v: v / s)
        return elementwise(f, data) if isinstance(data, (SArr, SSel)) else f(data)

    def converted(self, o, to):
        return self.derive(o, self.in_frame(o.data, o.frame, o.fac, to), frame=to)

    def convert(self, o, to):
        if o.frame == to:
            return None
        self.changing(o)
        if hasattr(o, "sharing"):
            raise Unsupported("conversion of memory that is shared")
        o.data, o.frame = self.in_frame(o.data, o.frame, o.fac, to), to
        return None

    def to(self, o, units, comoving, k):
        if k or (units is not None and getattr(units, "dim", None) != o.dim):
            raise Unsupported("conversion of units")
        return self.derive(o, o.data) if comoving is None else self.converted(o, comoving)

    def changing(self, o):
        self.c.oblige(o.owned is None, f"{o.owned or 'nothing'} is left alone (no operation in place)", kind="frame")
        if o.view:
            raise Unsupported("operation in place on a view")

    def owned_write(self, o):
        self.changing(o)

    def share(self, o):
        """A view of all of o."""
        r = self.derive(o, o.data, view=True)
        if o.owned is None and not o.view:
            r.view = None
            o.sharing = r.sharing = getattr(o, "sharing", None) or [o]
            o.sharing.append(r)
        return r

    def inplace(self, o, r):
        self.changing(o)
        for x in getattr(o, "sharing", ()):
            if (o.frame, o.dim, o.fac) != (r.frame, r.dim, r.fac):
                raise Unsupported("change of units of memory that is shared")
            x.data = r.data
        o.data, o.frame, o.dim, o.fac = r.data, r.frame, r.dim, r.fac
        return o

    def common(self, a, b):
        """Both in one frame: (data, data, frame)."""
        if not self.is_q(a):
            return a, b.data, b.frame
        if not self.is_q(b):
            return a.data, b, a.frame
        if a.frame == b.frame or not (a.fac or b.fac):
            return a.data, b.data, a.frame
        return self.in_frame(a.data, a.frame, a.fac, False), self.in_frame(b.data, b.frame, b.fac, False), False

    def props(self, x):
        return (x.dim, x.fac) if self.is_q(x) else ({}, {})

    def ew(self, f, a, b):
        for x in (a, b):
            if x is None or isinstance(x, (SymObj, str)):
                raise Unsupported("operand")
        return elementwise(f, a, b) if any(isinstance(x, (SArr, SSel, np.ndarray, list, tuple)) for x in (a, b)) else f(a, b)

    def alike(self, a, b, what):
        (d1, f1), (d2, f2) = self.props(a), self.props(b)
        if d1 != d2 or f1 != f2:
            zero = [x for x in (a, b) if not self.is_q(x) and kind(x) in "ir" and not is_sym(x) and x == 0]
            if not zero:
                raise ValueError(f"{what} of quantities of different dimensions or scalings")
        o = a if self.is_q(a) else b
        return o

    def make(self, o, data, frame, dim, fac):
        return self.q(data, frame, dim, fac, None, "derived")

    def plus(self, a, b):
        o = self.alike(a, b, "sum")
        x, y, fr = self.common(a, b)
        return self.make(o, self.ew(lambda u, v: u + v, x, y), fr, o.dim, o.fac)

    def minus(self, a, b):
        o = self.alike(a, b, "difference")
        x, y, fr = self.common(a, b)
        return self.make(o, self.ew(lambda u, v: u - v, x, y), fr, o.dim, o.fac)

    def mod(self, a, b):
        o = self.alike(a, b, "remainder")
        x, y, fr = self.common(a, b)
        return self.make(o, self.ew(self.wrap, x, y), fr, o.dim, o.fac)

    def times(self, a, b):
        (d1, f1), (d2, f2) = self.props(a), self.props(b)
        if isinstance(a, SymObj) and not self.is_q(a) or isinstance(b, SymObj) and not self.is_q(b):       # times a unit
            o, u = (a, b) if self.is_q(a) else (b, a)
            if not hasattr(u, "dim"):
                raise Unsupported("product")
            return self.q(o.data, o.frame, add(o.dim, u.dim), o.fac, None, o.name)
        x, y, fr = self.common(a, b)
        return self.make(None, self.ew(lambda u, v: u * v, x, y), fr, add(d1, d2), add(f1, f2))

    def over(self, a, b):
        (d1, f1), (d2, f2) = self.props(a), self.props(b)
        x, y, fr = self.common(a, b)
        return self.make(None, self.ew(self.divide, x, y), fr, add(d1, d2, -1), add(f1, f2, -1))

    def divide(self, u, v):
        """u / v as a value of its own (r with r v = u), which the provers like better."""
        if not is_sym(v):
            return u / v
        tu, tv = as_real(u), as_real(v)
        for r, *of in list(self.wraps.values()):
            if r.t.eq(tv) and z3.is_rational_value(of[0]) and of[0].as_fraction() == 1 and self.c.entails(tv != 0):
                return SV(tu * of[1])       # u / (1 / x)
        su, sv = z3.simplify(tu), z3.simplify(tv)
        key = ("div", su.get_id(), sv.get_id())
        if key not in self.wraps:
            if not self.c.entails(tv != 0):
                self.c.oblige(SV(tv != 0), "no division by zero", kind="pre")
            r = self.c.real("ratio")
            self.c.assume(r.t * tv == tu)
            self.c.assume(z3.Implies(z3.And(tu > 0, tv > 0), r.t > 0))
            self.wraps[key] = (r, su, sv)       # keeps the terms alive, so that the key stays theirs
        return self.wraps[key][0]

    def third(self, v):
        return v // 3 if v % 3 == 0 else Fraction(v, 3)

    def cbrt(self, u):
        r = self.c.real("cube_root")
        self.c.assume(r.t * r.t * r.t == as_real(u))
        return r

    def pow(self, o, p):
        if is_sym(p) or p != int(p) or p < 0:
            raise Unsupported("power of a quantity")
        r = self.q(1, o.frame, {}, {})
        for _ in range(int(p)):
            r = self.times(r, o)
        r.frame = o.frame
        return r

    def cmp(self, s, a, b):
        if b is None or isinstance(b, str):
            return s == "!="
        self.alike(a, b, "comparison")
        x, y, _ = self.common(a, b)
        return self.ew(lambda u, v: compare(s, u, v), x, y)

    def wrap(self, a, b):
        """a mod b."""
        ta, tb = as_real(a), as_real(b)
        sa, sb = z3.simplify(ta), z3.simplify(tb)
        key = ("mod", sa.get_id(), sb.get_id())
        if key not in self.wraps:
            if not self.c.entails(tb > 0):
                raise Unsupported("remainder of a division by something not known to be positive")
            n = self.c.real("boxes")        # an integer
            self.c.assume(z3.And(ta - n.t * tb >= 0, ta - n.t * tb < tb))
            self.wraps[key] = (n, sa, sb)
        n = self.wraps[key][0]
        if not any(u is n for u in self.used):
            self.used.append(n)
        return SV(ta - n.t * tb)

    # ---- numpy
    def item(self, o, k):
        d = o.data
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self.share(o)
        if isinstance(k, SymObj):
            raise Unsupported("index")
        if isinstance(k, (SArr, SSel, np.ndarray)):
            return self.derive(o, getitem(d, k))
        if isinstance(d, SSel):
            raise Unsupported("item of a selection")
        return self.derive(o, getitem(d, k), view=True)

    def matmul(self, a, b):
        x, y = (v.data if self.is_q(v) else from_concrete(v) if isinstance(v, np.ndarray) else v for v in (a, b))
        (d1, f1), (d2, f2) = self.props(a), self.props(b)
        if not (isinstance(x, SArr) and isinstance(y, SArr) and x.ndim == 2 and y.ndim in (1, 2)) or is_sym(concrete(x.shape[1])):
            raise Unsupported("matrix product")
        n = concrete(x.shape[1])
        f, g = x.snapshot(), y.snapshot()

        def entry(i, *j):
            r = 0
            for k in range(n):
                r = r + f(i, k) * g(k, *j)
            return r
        q = a if self.is_q(a) else b
        return self.make(None, SArr((x.shape[0],) + tuple(y.shape[1:]), entry, "r", "product"), q.frame, add(d1, d2), add(f1, f2))

    def concatenated(self, parts):
        qs = [p for p in parts if self.is_q(p)]
        if len(qs) != len(parts) or any(isinstance(p.data, (SArr, SSel)) for p in qs):
            raise Unsupported("np.r_")
        o = qs[0]
        for p in qs[1:]:
            self.alike(o, p, "concatenation")
        same = all(p.frame == o.frame for p in qs)
        vals = [p.data if same else self.in_frame(p.data, p.frame, p.fac, False) for p in qs]
        return self.make(o, SArr((len(vals),), lambda i: self.pick(vals, i), "r", "joined"), o.frame if same else False, o.dim, o.fac)

    def pick(self, vals, i):
        i = concrete(i)
        if not is_sym(i):
            return vals[i]
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = ite(compare("==", i, k), vals[k], r)
        return r

    def numpy(self):
        I, M = self.I, self.I.models

        def over(fn, f):
            old = M.get(fn)

            def g(*a, **k):
                if any(self.is_q(x) for x in list(a) + list(k.values())) or any(isinstance(x, (list, tuple)) and any(self.is_q(y) for y in x) for x in a):
                    return f(*a, **k)
                if old is None:
                    from pyvc.interp import has_sym
                    if has_sym(list(a)) or has_sym(list(k.values())):
                        raise Unsupported(f"no model of {fn.__name__}")
                    return fn(*a, **k)
                return old(*a, **k)
            M[fn] = g

        def like(v):
            def f(o, *a, **k):
                if a or k:
                    raise Unsupported("arguments of zeros_like")
                d = o.data
                return self.derive(o, SArr(d.shape, lambda *i: v, "r", "constant") if isinstance(d, SArr) else v)
            return f
        over(np.zeros_like, like(0))
        over(np.ones_like, like(1))
        over(np.empty_like, lambda o, *a, **k: self.derive(o, SArr(o.data.shape, lambda i: SV(z3.FreshConst(z3.RealSort(), "junk")), "r", "empty")))

        def isclose(a, b, *r, **k):
            if r or k:
                raise Unsupported("tolerance")
            self.alike(a, b, "isclose")
            x, y, _ = self.common(a, b)
            if isinstance(x, (SArr, SSel)) or isinstance(y, (SArr, SSel)):
                raise Unsupported("isclose of arrays")
            t = self.c.bool("close")
            x, y = as_real(x), as_real(y)
            far = z3.Or(x - y > z3.If(y < 0, -y, y) / 50, y - x > z3.If(y < 0, -y, y) / 50)
            self.c.assume(z3.And(z3.Implies(x == y, t.t), z3.Implies(z3.And(far, y != 0), z3.Not(t.t))))
            return t
        over(np.isclose, isclose)
        over(np.allclose, isclose)
        over(np.matmul, self.matmul)
        over(np.dot, self.matmul)
        over(np.transpose, lambda o: self.derive(o, self.transposed(o.data), view=True))
        over(np.mod, self.mod)
        over(np.remainder, self.mod)
        over(np.multiply, self.times)
        over(np.divide, self.over)
        over(np.subtract, self.minus)
        over(np.add, self.plus)
        over(np.cbrt, lambda o: self.q(elementwise(self.cbrt, o.data), o.frame, {k: self.third(v) for k, v in o.dim.items()}, {k: self.third(v) for k, v in o.fac.items()}))
        over(np.square, lambda o: self.pow(o, 2))
        over(np.power, self.pow)
        over(np.asarray, lambda o, *a, **k: o.data)
        over(np.max, lambda o: o.attrs["max"]() if self.is_q(o) else self.concatenated(list(o)).attrs["max"]())
        over(np.maximum, lambda a, b: self.concatenated([a, b]).attrs["max"]())
        over(max, lambda *a: self.concatenated(list(a) if len(a) > 1 else list(a[0])).attrs["max"]())
        over(np.prod, lambda o: self.times(self.times(self.item(o, 0), self.item(o, 1)), self.item(o, 2)) if concrete(o.data.shape[0]) == 3 else self.unknown("prod")(o))

        def num(x):
            if self.is_q(x):
                if x.dim or isinstance(x.data, (SArr, SSel)):
                    raise Unsupported("number of a quantity")
                return x.data
            return x
        for fn in (np.ceil, np.floor, np.rint, int, float, round):
            if fn in M:
                over(fn, lambda x, *a, fn=fn, old=M[fn]: old(num(x), *a))
        for fn in (np.logical_and, np.bitwise_and):
            old = M.get(fn, lambda a, b: elementwise(land, a, b))

            def both(a, b, old=old):
                if a is Ellipsis or b is Ellipsis:      # an object array: both are true
                    return b if a is Ellipsis else a
                return old(a, b)
            M[fn] = both

    # ---- specification
    def equal(self, c, x, y, what):
        c.oblige(SV(as_real(x) == as_real(y)), what)

    def selection(self, d, i):
        """(selected?, value) of base index i of what was handed over."""
        if isinstance(d, SSel):
            return d.mask_fn(i), lambda: d.fn(i)
        if isinstance(d, SArr) and d.attrs.get("selection") is None:
            return True, lambda: d.get(i)
        raise Unsupported("selection of particles")

    def images(self, f, c, g, what):
        """g() == f(number of boxes) for the number of boxes that was used (their sum, whichever were needed)."""
        self.used.clear()
        v = g()
        used = list(self.used)
        goals = []
        for r in range(len(used), -1, -1):
            for s in itertools.combinations(used, r):
                n = z3.RealVal(0)
                for x in s:
                    n = n + x.t
                goals.append(as_real(v) == as_real(f(SV(n))))
        c.oblige(SV(z3.Or(*goals)), what)
        return v


def record(name, **attrs):
    """A part of a dataset of which only these attributes have a model."""
    def missing(o, n):
        raise Unsupported(f"no model of {name}.{n}")
    r = SymObj(Rec, dict(attrs), name=name)
    r.attrs[("getattr", "*")] = missing
    return r


class Data:
    """A dataset with n particles, its metadata, and what a caller passes."""

    def __init__(self, W, c, coords=True, box_frame=True):
        self.W = W
        self.n = c.int("n_particles")
        c.assume(self.n >= 0)
        L = [c.real(f"box_{i}") for i in range(3)]
        for x in L:
            c.assume(x > 0)
        self.L = L          # comoving
        X = c.func("x", "i", "i", "r")
        self.X = lambda i, j: SV(X(term(i), term(j)))
        S = lambda names: {"L": names}
        self.boxsize = W.q(SArr((3,), lambda i: W.pick(L, i), "r", "box"), True, {"L": 1}, {"L": 1}, "the box size of the metadata", "boxsize")
        self.coordinates = W.q(SArr((self.n, 3), lambda i, j: self.X(i, j), "r", "x"), coords, {"L": 1}, {"L": 1}, "the field coordinates", "coordinates")
        M_, H_ = c.func("m", "i", "r"), c.func("h", "i", "r")
        self.M, self.H = lambda i: SV(M_(term(i))), lambda i: SV(H_(term(i)))
        self.md = record("metadata", boxsize=self.boxsize)

    def scale(self):
        return self.W.scale_of({"L": 1})

    def length(self, frame):
        """The box in a frame."""
        return [x if frame else x * self.scale() for x in self.L]

    def masses(self, frame, name="masses"):
        return self.W.q(SArr((self.n,), lambda i: self.M(i), "r", "m"), frame, {"M": 1}, {"M": 1}, f"the field {name}", name)

    def hsml(self, frame):
        return self.W.q(SArr((self.n,), lambda i: self.H(i), "r", "h"), frame, {"L": 1}, {"L": 1}, "the field smoothing_lengths", "smoothing_lengths")

    def of(self, data, frame, frame2):
        """Numbers of a length from one frame in another."""
        return data if frame == frame2 else data * self.scale() if frame else data / self.scale()


def contract(job, name, f, module=TOOLS):
    g = getattr(mod(module), name, None)
    if g is None:
        raise CannotAttach(name)
    job.contracts[funcval(g).qual] = f
    return g


def error(c, f, what):
    """f() raises."""
    try:
        f()
    except Exception as e:
        return e
    c.oblige(False, what)


def region_job():
    """_get_region_info: bounds in the frame of the coordinates, ranges, the box in units of the wider side."""
    job = Job("_get_region_info", budget_s=200)

    def body(job, I, c):
        W = World(job, I, c)
        frame = bool(c.choose(2))
        kindof = (None, 4, 6)[c.choose(3)]
        rframe = bool(c.choose(2)) if kindof else None
        periodic = bool(c.choose(2))
        cubic = bool(c.choose(2)) if kindof != 4 else False
        D = Data(W, c, frame)
        R = [c.real(f"bound_{i}") for i in range(kindof or 0)]
        for i in range(0, kindof or 0, 2):
            c.assume(R[i] < R[i + 1])
        region = W.q(SArr((kindof,), lambda i: W.pick(R, i), "r", "region"), rframe, {"L": 1}, {"L": 1}, "the region", "region") if kindof else None
        data = record("data", coordinates=D.coordinates, metadata=D.md)
        f = getattr(mod(TOOLS), "_get_region_info")
        L = D.length(frame)
        want = [D.of(r, rframe, frame) for r in R] if kindof else [0, L[0], 0, L[1], 0, L[2]]
        if kindof == 4:
            want += [0, L[2]]
        rng = [want[i + 1] - want[i] for i in (0, 2, 4)]
        try:
            r = I.call(funcval(f), [data, region], {"require_cubic": cubic, "periodic": periodic})
        except (AttributeError, ValueError) as e:
            ok = SV(z3.And(as_real(rng[0]) == as_real(rng[1]), as_real(rng[0]) == as_real(rng[2])))
            c.oblige(lnot(ok) if cubic else False, "a region is rejected only if it has to be cubic and is not")
            return
        if not isinstance(r, dict):
            raise Unsupported("result")
        if cubic:
            far = lambda a, b: z3.Or(a - b > b / 50, b - a > b / 50)
            c.oblige(SV(z3.Not(z3.Or(far(as_real(rng[0]), as_real(rng[1])), far(as_real(rng[0]), as_real(rng[2]))))), "a region that has to be cubic and is not is rejected")
        big = smax(rng[0], rng[1])
        names = ["x_min", "x_max", "y_min", "y_max", "z_min", "z_max"]

        def length(n, v):
            x = r.get(n)
            ok = W.is_q(x) and x.dim == {"L": 1} and x.fac == {"L": 1} and x.frame is not None
            c.oblige(ok, f"{n} is a length in a frame")
            if ok:
                W.equal(c, W.in_frame(x.data, x.frame, x.fac, frame), v, f"{n} is that of the region, in the frame of the coordinates")
        for n, v in zip(names, want):
            length(n, v)
        for n, v in zip(("x_range", "y_range", "z_range"), rng):
            length(n, v)
        length("max_range", big)
        c.oblige(bool(r.get("region_includes_z")) == (kindof == 6), "a depth is selected exactly when the region has one")
        for n, v in zip(("periodic_box_x", "periodic_box_y", "periodic_box_z"), L):
            x = r.get(n)
            x = x.data if W.is_q(x) and not x.dim else x
            if isinstance(x, SymObj) or x is None:
                c.oblige(False, f"{n} is a number")
            elif periodic:
                c.oblige(SV(as_real(x) * as_real(big) == as_real(v)), f"{n} is the box in units of the wider side")
            else:
                W.equal(c, x, 0, f"{n} is zero without periodic boundaries")
    return job.run(body)


def coordinates_job():
    """_get_rotated_and_wrapped_coordinates."""
    job = Job("_get_rotated_and_wrapped_coordinates", budget_s=200)

    def body(job, I, c):
        W = World(job, I, c)
        frame, rotate, periodic = bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2))
        cframe = bool(c.choose(2)) if rotate else None
        D = Data(W, c, frame)
        Rm = [[c.real(f"R_{i}{j}") for j in range(3)] for i in range(3)]
        C = [c.real(f"centre_{i}") for i in range(3)]
        matrix = SArr((3, 3), lambda i, j: W.pick([W.pick(r, j) for r in Rm], i), "r", "matrix") if rotate or c.choose(2) else None
        centre = W.q(SArr((3,), lambda i: W.pick(C, i), "r", "centre"), cframe, {"L": 1}, {"L": 1}, "the centre of rotation", "centre") if rotate else None
        data = record("data", coordinates=D.coordinates, metadata=D.md)
        f = getattr(mod(TOOLS), "_get_rotated_and_wrapped_coordinates")
        call = lambda: I.call(funcval(f), [data, matrix, centre, periodic], {})
        if rotate and periodic:
            e = error(c, call, "rotated periodic coordinates are rejected")
            c.oblige(isinstance(e, ValueError), "rotated periodic coordinates are rejected (ValueError)")
            return
        r = call()
        ok = W.is_q(r) and isinstance(r.data, SArr) and r.data.ndim == 2 and r.dim == {"L": 1} and r.fac == {"L": 1} and r.frame is not None
        c.oblige(ok, "coordinates are lengths in a frame")
        if not ok:
            return
        r = W.derive(r, W.in_frame(r.data, r.frame, r.fac, frame))
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        L = D.length(frame)
        c.oblige(land(compare("==", r.data.shape[0], 3), compare("==", r.data.shape[1], D.n)), "one row per axis, one column per particle")
        for p in range(3):
            if rotate:
                Cf = [D.of(x, cframe, frame) for x in C]
                want = Cf[p]
                for k in range(3):
                    want = want + Rm[p][k] * (D.X(i, k) - Cf[k])
                W.equal(c, r.data.get(p, i), want, "a particle is rotated about the centre")
            elif periodic:
                v = W.images(lambda n: D.X(i, p) - n * L[p], c, lambda: r.data.get(p, i), "a particle is moved by a whole number of boxes")
                c.oblige(SV(z3.And(as_real(v) >= 0, as_real(v) < as_real(L[p]))), "into the box")
            else:
                W.equal(c, r.data.get(p, i), D.X(i, p), "without rotation and periodic boundaries coordinates are those of the particles")
    return job.run(body)


class Image:
    """Class of what a backend returns."""


def wrapper_job():
    """backend_strip_and_restore_cosmo_and_units: numbers in one frame go in, units and frame come out."""
    job = Job("backend_strip_and_restore_cosmo_and_units", budget_s=150)

    def body(job, I, c):
        W = World(job, I, c)
        frames = [bool(c.choose(2)) for _ in range(3)]      # m, positions, h
        D = Data(W, c, True)
        px = c.func("px", "i", "r")
        fac = {"L": 1} if c.choose(2) else {}       # positions in units of a length, or lengths
        dim = dict(fac)
        pos = [W.q(SArr((D.n,), lambda i, k=k: SV(px(term(i) + k)), "r", "pos"), frames[1], dim, fac, None, n) for k, n in enumerate("xyz")]
        m = D.masses(frames[0])
        h = W.q(SArr((D.n,), lambda i: D.H(i), "r", "h"), frames[2], dim, fac, None, "h")
        nm = c.real("norm")
        c.assume(nm > 0)
        norm = W.q(nm, bool(c.choose(2)), {"L": 2}, {"L": 2}, None, "norm")
        got = []
        raw = c.real("pixel")

        def backend(**kw):
            got.append(kw)
            o = SymObj(Image, {}, name="image")
            o.attrs["view"] = model(lambda *a: W.q(raw, None, {}, {}, None, "image"))
            return o

        def attach(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual + " (C09)")
            v = list(I.bind(fv, a, k).values())
            src, dst = v[0], v[1]
            c.oblige(W.is_q(src) and W.is_q(dst), "attributes of a quantity are given to the image", kind="pre")
            units = k.get("copy_units", v[2] if len(v) > 2 else True)
            return W.q(dst.data, src.frame, src.dim if units else {}, src.fac, None, "image")
        contract(job, "_copy_cosmo_array_attributes_if_present", attach, "swiftsimio._array_functions")
        res = c.int("res")
        f = getattr(mod(TOOLS), "backend_strip_and_restore_cosmo_and_units")
        w = I.call(funcval(f), [model(backend)], {"norm": norm})
        kw = dict(x=pos[0], y=pos[1], z=pos[2], m=m, h=h, res=res, box_x=0.0)
        r = I.call(w, [], dict(kw))
        c.oblige(len(got) == 1, "the backend is called once")
        if len(got) != 1:
            return
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        k = got[0]
        c.oblige(set(k) == set(kw), "with every argument")
        c.oblige(k.get("res") is res and k.get("box_x") == 0.0, "numbers are handed over as they are")
        for n, q, fr, d in (("x", pos[0], frames[1], px(i.t)), ("y", pos[1], frames[1], px(i.t + 1)), ("h", h, frames[2], D.H(i).t), ("m", m, frames[0], D.M(i).t)):
            v = k.get(n)
            if not isinstance(v, SArr):
                raise Unsupported("argument of a backend")
            want = W.in_frame(SV(d), fr, fac if n != "m" else {"M": 1}, frames[0]) if n != "m" else SV(d)
            W.equal(c, v.get(i), want, f"{n} is handed over as numbers in the frame of the field")
        ok = W.is_q(r) and r.frame is frames[0]
        c.oblige(ok, "the image is in the frame of the field")
        if ok:
            c.oblige(r.dim == {"M": 1, "L": -2} and r.fac == {"M": 1, "L": -2}, "the image has the units and scaling of the field per area")
            n_ = W.in_frame(nm, norm.frame, {"L": 2}, frames[0])
            c.oblige(SV(as_real(r.data) * as_real(n_) == raw.t), "the image is what the backend returned, per area")
    return job.run(body)


def setup(job, I, c, periodic, backend_kinds, zregion, masked, cubic=False):
    """A dataset and the contracts of the helpers, for the functions that make pictures."""
    W = World(job, I, c)
    frame, rframe, mframe, hframe = bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2))
    D = Data(W, c, frame)
    D.frame = frame
    D.hf = hframe
    L = D.length(frame)
    lo = [c.real(f"{a}_min") for a in "xyz"]
    big = c.real("max_range")
    rng = [c.real(f"{a}_range") for a in "xyz"]
    for x in rng:
        c.assume(x > 0)
    if cubic:
        for x in rng:
            c.assume(compare("==", x, big))
    else:
        c.assume(SV(z3.And(big.t >= rng[0].t, big.t >= rng[1].t, z3.Or(big.t == rng[0].t, big.t == rng[1].t))))
    D.lo, D.big, D.rng, D.Lc = lo, big, rng, L
    length = lambda v, n: W.q(D.of(v, frame, rframe), rframe, {"L": 1}, {"L": 1}, None, n)
    info = {"region_includes_z": zregion, "max_range": length(big, "max_range")}
    D.box = []
    for p, a in enumerate("xyz"):
        info[a + "_min"], info[a + "_max"], info[a + "_range"] = length(lo[p], a + "_min"), length(lo[p] + rng[p], a + "_max"), length(rng[p], a + "_range")
        b = W.divide(L[p], big) if periodic else 0.0
        info["periodic_box_" + a] = W.q(b, rframe, {}, {}, None, "periodic box") if periodic else 0.0
        D.box.append(b)
    Y = c.func("coordinate", "i", "i", "r")

    def coords(I, fv, a, k):
        job.assumed.add("contract:" + fv.qual)
        v = I.bind(fv, a, k)
        D.asked = v
        c.oblige(v.get("data") is D.data and v.get("periodic") is periodic and v.get("rotation_matrix") is D.matrix and v.get("rotation_center") is D.centre,
                 "coordinates are prepared as asked for", kind="pre")
        if D.centre is not None and periodic:
            raise ValueError("Rotation and periodic boundaries in visualisation are incompatible.")

        def at(p, i):
            t = SV(Y(term(p), term(i)))
            if periodic:
                q = concrete(p)
                if is_sym(q):
                    raise Unsupported("axis")
                c.assume(z3.And(t.t >= 0, t.t < as_real(L[q])))
            return t
        return W.q(SArr((3, D.n), at, "r", "coordinates"), frame, {"L": 1}, {"L": 1}, "the field coordinates" if D.centre is None else None, "coordinates", True)
    D.Y = lambda p, i: SV(Y(term(p), term(i)))

    def region(I, fv, a, k):
        job.assumed.add("contract:" + fv.qual)
        v = I.bind(fv, a, k)
        c.oblige(v.get("data") is D.data and v.get("region") is D.region and v.get("periodic", True) is periodic, "the region is prepared as asked for", kind="pre")
        if cubic:
            c.oblige(v.get("require_cubic") is True, "the region has to be cubic", kind="pre")
        return dict(info)
    D.m = D.masses(mframe)
    D.mframe = mframe

    def field(I, fv, a, k):
        job.assumed.add("contract:" + fv.qual)
        v = list(I.bind(fv, a, k).values())
        c.oblige(v[0] is D.data and v[1] == "masses", "the field asked for is used", kind="pre")
        return D.m
    contract(job, "_get_rotated_and_wrapped_coordinates", coords)
    contract(job, "_get_region_info", region)
    contract(job, "_get_projection_field", field)
    D.h = D.hsml(hframe)
    for name, fn in dict(mod(V + "smoothing_length").backends_get_hsml).items():
        def hs(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            return D.h
        if name != "histogram":
            job.contracts[funcval(fn).qual] = hs
    D.calls = []

    def part(a, b):
        im = SymObj(Image, {}, name="image")
        im.part = (a, b)
        full = lambda s: isinstance(s, slice) and s.start is None and s.stop is None and s.step is None

        def item(key):
            key = key if isinstance(key, tuple) else (key, slice(None))
            if len(key) != 2 or any(not isinstance(k, slice) or not (full(p) or full(k)) for k, p in zip(key, im.part)):
                raise Unsupported("part of a picture")
            return part(*[p if full(k) else k for k, p in zip(key, im.part)])
        im.attrs[("special", "__getitem__")] = model(item)
        return im

    def wrapped(I, fv, a, k):
        job.assumed.add("contract:" + fv.qual)
        v = I.bind(fv, a, k)

        def run(*args, **kw):
            D.calls.append((v.get("backend_func"), v.get("norm", 1.0), args, kw))
            D.image = part(slice(None), slice(None))
            return D.image
        return model(run)
    contract(job, "backend_strip_and_restore_cosmo_and_units", wrapped)
    D.region = SymObj(Rec, {}, name="region")
    D.centre = D.matrix = None
    D.data = record("data", coordinates=D.coordinates, metadata=D.md, masses=D.m, smoothing_lengths=D.h)
    D.mask = None
    if masked:
        Mk = c.func("mask", "i", "b")
        D.maskf = lambda i: SV(Mk(term(i)))
        D.mask = SArr((D.n,), lambda i: D.maskf(i), "b", "mask")
    return W, D


def natural(f):
    """The function a backend runs (without numba)."""
    return getattr(f, "py_func", f)


def handed(W, D, c, call, backends, backend, parallel):
    """The arguments of the backend by name, and what was given as norm."""
    b, norm, args, kw = call
    table = backends
    want = table[backend]
    c.oblige(b is want, f"the {'parallel ' if parallel else ''}backend asked for is called")
    names = list(inspect.signature(natural(want)).parameters)
    kw = dict(zip(names, args), **kw)
    c.oblige(all(n in kw for n in names if inspect.signature(natural(want)).parameters[n].default is inspect.Parameter.empty) and all(n in names for n in kw),
             "the backend gets the arguments it takes")
    return kw, norm


def number(W, x):
    if W.is_q(x):
        if x.dim or x.fac:
            return None
        return x.data
    return x


def per_particle(W, D, c, kw, axes, selected, scale, hist=False):
    """What the backend gets for one arbitrary particle."""
    i = c.int("i")
    c.assume(land(i >= 0, compare("<", i, D.n)))
    want = selected(i)
    for n in axes + (["m"] if hist else ["m", "h"]):
        q = kw.get(n)
        ok = W.is_q(q)
        c.oblige(ok, f"{n} is handed over")
        if not ok:
            return
        W.used.clear()
        sel, val = W.selection(q.data, i)
        yield i, n, q, sel, val, want


def picture_job(kindname, periodic, zregion=False, masked=False, parallel=False, backend=None, rotate=False):
    """project_pixel_grid, slice_pixel_grid, render_voxel_grid."""
    job = Job(f"{kindname} ({'periodic' if periodic else 'not periodic'}{', depth' if zregion else ''}{', mask' if masked else ''}{', rotated' if rotate else ''})", budget_s=300)
    names = {"project": ("projection", "project_pixel_grid", "projection_backends", "fast"), "slice": ("slice", "slice_pixel_grid", "slice_backends", "sph"),
             "render": ("volume_render", "render_voxel_grid", "volume_render_backends", None)}[kindname]

    def body(job, I, c):
        W, D = setup(job, I, c, periodic, None, zregion, masked, cubic=kindname == "render")
        M = mod(V + names[0])
        f = getattr(M, names[1])
        B = mod(V + names[2])
        table = B.backends_parallel if parallel else B.backends
        bk = backend or names[3]
        res = c.int("resolution")
        c.assume(res >= 1)
        if rotate:
            C = [c.real(f"centre_{i}") for i in range(3)]
            cf = bool(c.choose(2)) if kindname == "slice" else True
            D.centre = W.q(SArr((3,), lambda i: W.pick(C, i), "r", "centre"), cf, {"L": 1}, {"L": 1}, "the centre of rotation", "centre")
            D.matrix = SymObj(Rec, {}, name="matrix")
        kwargs = dict(project="masses", region=D.region, mask=D.mask, rotation_matrix=D.matrix, rotation_center=D.centre, parallel=parallel, periodic=periodic)
        if kindname != "render":
            kwargs["backend"] = bk
        zs = zframe = None
        if kindname == "slice":
            zframe = (True, False, None)[c.choose(3)]
            zs = c.real("z_slice")
            kwargs["z_slice"] = W.q(zs, zframe, {"L": 1}, {"L": 1}, "the height of the slice", "z_slice") if zframe is not None else None
        try:
            r = I.call(funcval(f), [D.data, res], kwargs)
        except ValueError:
            if rotate and periodic:
                c.oblige(True, "rotation in a periodic box is refused")
                return
            c.oblige(SV(as_real(D.rng[2]) > as_real(D.Lc[2])) if periodic and zregion and kindname == "project" else False, "a picture is refused only when it is deeper than the box")
            return
        if kindname == "project" and periodic and zregion:
            c.oblige(compare("<=", D.rng[2], D.Lc[2]), "a depth of more than the box is refused")
        c.oblige(len(D.calls) == 1, "the backend is called once")
        if len(D.calls) != 1:
            return
        kw, norm = handed(W, D, c, D.calls[0], table, bk or "scatter", parallel)
        axes = {"project": ["x", "y"], "slice": ["x", "y", "z"], "render": ["x", "y", "z"]}[kindname]
        hist = bk == "histogram" and kindname == "project"
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        depth = zregion and kindname == "project"
        for n in axes + ["m"] + ([] if hist else ["h"]):
            q = kw.get(n)
            ok = W.is_q(q)
            c.oblige(ok, f"{n} is handed over")
            if not ok:
                continue
            W.used.clear()
            sel, val = W.selection(q.data, i)
            used = list(W.used)
            base = D.maskf(i) if masked else True
            if depth:
                z, lo, rg, Lz = D.Y(2, i), D.lo[2], D.rng[2], D.Lc[2]
                if not periodic:
                    c.oblige(compare("==", sel, land(base, compare(">=", z, lo), compare("<=", z, lo + rg))), f"{n}: exactly the particles within the depth are handed over")
                else:
                    k = c.real("image")         # an integer
                    Q = z3.RealVal(0)
                    for u in used:
                        Q = Q + u.t
                    inside = z3.And(as_real(z) - k.t * as_real(Lz) >= as_real(lo), as_real(z) - k.t * as_real(Lz) <= as_real(lo) + as_real(rg))
                    d = k.t - Q
                    whole = z3.Or(d <= -1, d == 0, d >= 1)
                    c.oblige(SV(z3.Implies(z3.And(as_bool(base), inside), as_bool(sel))), f"{n}: a particle with an image within the depth is handed over", hyps=[whole])
                    c.oblige(SV(z3.Implies(z3.And(as_bool(sel), k.t == Q), z3.And(as_bool(base), inside))), f"{n}: a particle without image within the depth is not handed over")
            else:
                c.oblige(compare("==", sel, base), f"{n}: exactly the particles of the mask are handed over")
            if n in "xyz":
                p = "xyz".index(n)
                shift = D.lo[p] if (n != "z" or kindname == "render") else 0
                c.oblige(not q.dim and not q.fac, f"{n} is a number: a fraction of the wider side")
                W.used.clear()
                v = val()
                W.divide(1, D.big)
                if periodic:
                    W.images(lambda nn: W.divide(D.Y(p, i) - shift, D.big) - nn * W.divide(D.Lc[p], D.big), c, val,
                             f"{n} is the position relative to the region, in units of the wider side, moved by whole boxes")
                    c.oblige(SV(z3.And(as_real(v) >= 0, as_real(v) < as_real(D.box[p]))), f"{n} is in the box")
                else:
                    c.oblige(SV(as_real(v) * as_real(D.big) == as_real(D.Y(p, i)) - as_real(shift)), f"{n} is the position relative to the region, in units of the wider side")
            elif n == "m":
                c.oblige(q.frame is D.mframe and q.dim == {"M": 1}, "the field is handed over with its units and frame")
                W.equal(c, val(), D.M(i), "the field is that of the particle")
            else:
                c.oblige(not q.dim and not q.fac, "h is a number: a fraction of the wider side")
                c.oblige(SV(as_real(val()) * as_real(D.big) == as_real(D.of(D.H(i), D.hf, D.frame))), "h is the smoothing length in units of the wider side")
        for p, a in enumerate("xyz"[:2 if kindname == "project" else 3]):
            v = number(W, kw.get("box_" + a))
            c.oblige(v is not None and not isinstance(v, SymObj), "the box is a number")
            W.equal(c, v, D.box[p], f"box_{a} is the periodic box")
        if kindname == "slice":
            v = number(W, kw.get("z_slice"))
            c.oblige(v is not None and not isinstance(v, SymObj), "the height of the slice is a number")
            height = D.of(zs, zframe, D.frame) if zframe is not None else 0
            if rotate:
                height = height + D.of(C[2], cf, D.frame)
            if not periodic:
                c.oblige(SV(as_real(v) * as_real(D.big) == as_real(height)), "the height of the slice is relative to the centre, in units of the wider side")
            else:
                g = [n_ for n_, *_ in W.wraps.values() if isinstance(n_, SV) and str(n_.t).startswith("boxes")]
                c.oblige(SV(z3.Or(*[as_real(v) * as_real(D.big) == as_real(height) - n_.t * as_real(D.Lc[2]) for n_ in g])), "the height of the slice is that asked for, moved by whole boxes")
                c.oblige(SV(z3.And(as_real(v) >= 0, as_real(v) < as_real(D.box[2]))), "the height of the slice is in the box")
        power_ = 2 if kindname == "project" else 3
        ok = W.is_q(norm) and norm.dim == {"L": power_} and norm.fac == {"L": power_}
        c.oblige(ok, f"the picture is per {'area' if power_ == 2 else 'volume'}")
        if ok:
            nv = W.in_frame(norm.data, norm.frame, norm.fac, D.frame)
            want = D.big * D.big if power_ == 2 else D.big * D.big * D.big
            W.equal(c, nv, want, "in units of the wider side")
        # the shape
        sides = []
        if kindname == "project":
            ok = isinstance(r, SymObj) and hasattr(r, "part") and all((s.start is None or kind(s.start) == "i" and not is_sym(s.start) and s.start == 0) and s.step is None for s in r.part)
            if not ok:
                raise Unsupported("picture")
            sides = [res if s.stop is None else s.stop for s in r.part]
            W.equal(c, kw.get("res"), res, "the resolution is that asked for")
        else:
            c.oblige(r is D.image, "the picture is what the backend returned")
            if kindname == "slice":
                sides = [kw.get("xres"), kw.get("yres")]
            else:
                W.equal(c, kw.get("res"), res, "the resolution is that asked for")
        for p, s in enumerate(sides):
            s = number(W, s)
            x = as_real(s) * as_real(D.big)
            y = as_real(res) * as_real(D.rng[p])
            c.oblige(SV(z3.And(x >= y, x - as_real(D.big) < y)), "the picture has as many pixels along a side as the region covers")
    return job.run(body)


class Backend:
    """Class of what deposit returns."""


def opaque(n):
    return SymObj(Rec, {}, name=n)


def delegation_job():
    """project_gas, slice_gas, render_gas: the picture of the gas, with everything as asked for."""
    job = Job("project_gas, slice_gas, render_gas", budget_s=100)

    def body(job, I, c):
        which = ("projection", "project_gas", "project_pixel_grid"), ("slice", "slice_gas", "slice_pixel_grid"), ("volume_render", "render_gas", "render_voxel_grid")
        m, front, back = which[c.choose(3)]
        M = mod(V + m)
        f, g = getattr(M, front, None), getattr(M, back, None)
        if f is None or g is None:
            raise CannotAttach(front)
        got = []

        def picture(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            got.append(I.bind(fv, a, k))
            return opaque("picture")
        job.contracts[funcval(g).qual] = picture
        sig, sig2 = inspect.signature(f).parameters, inspect.signature(g).parameters
        names = list(sig)
        gas = opaque("gas")
        given = {names[0]: SymObj(Rec, {"gas": gas}, name="data")}
        every = c.choose(2)
        for n in names[1:]:
            if every or sig[n].default is inspect.Parameter.empty:
                given[n] = opaque(n)
        r = I.call(funcval(f), [], given)
        c.oblige(len(got) == 1, "one picture is made")
        if len(got) != 1:
            return
        v = got[0]
        c.oblige(v[list(sig2)[0]] is gas, "of the gas")
        for n in list(sig2)[1:]:
            want = given.get(n, sig[n].default if n in sig else sig2[n].default)
            have = v.get(n, sig2[n].default)
            c.oblige(have is want or (isinstance(want, (str, bool, int, float)) and have == want), f"with the {n} asked for")
    return job.run(body)


def field_job():
    """_get_projection_field: the field asked for itself (not a copy, not changed), or ones."""
    job = Job("_get_projection_field", budget_s=60)

    def body(job, I, c):
        W = World(job, I, c)
        D = Data(W, c)
        f = getattr(mod(TOOLS), "_get_projection_field", None)
        if f is None:
            raise CannotAttach("_get_projection_field")
        m, o = D.masses(bool(c.choose(2))), D.hsml(bool(c.choose(2)))
        ids = W.q(SArr((D.n,), lambda i: D.M(i), "r", "ids"), None, {}, {}, "the field particle_ids", "particle_ids")
        sub = SymObj(Rec, {"iron": o, "masses": o}, name="named columns")
        data = SymObj(Rec, {"masses": m, "fractions": sub, "particle_ids": ids, "iron": m}, name="data")
        name, want = (("masses", m), ("iron", m), ("fractions.iron", o), ("fractions.masses", o), (None, None))[c.choose(5)]
        r = I.call(funcval(f), [data, name], {})
        if name is not None:
            c.oblige(r is want, "the field asked for is used")
            return
        c.oblige(W.is_q(r) and r.owned is None, "ones are no field of the dataset")
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        d = r.data if W.is_q(r) else r
        c.oblige(isinstance(d, SArr) and d.ndim == 1, "one number per particle")
        W.equal(c, d.shape[0], D.n, "one number per particle")
        W.equal(c, d.get(i), 1, "without field, ones")
    return job.run(body)


def hsml_job():
    """The smoothing lengths of each backend: the field, or cbrt(volume), or nothing that is looked at; no field is changed."""
    job = Job("backends_get_hsml", budget_s=60)

    def body(job, I, c):
        W = World(job, I, c)
        D = Data(W, c)
        table = mod(V + "smoothing_length").backends_get_hsml
        key = ("sph", "nearest_neighbours", "histogram")[c.choose(3)]
        fr = bool(c.choose(2))
        h, m = D.hsml(fr), D.masses(fr)
        vol = c.func("volume", "i", "r")
        w = W.q(SArr((D.n,), lambda i: SV(vol(term(i))), "r", "volumes"), fr, {"L": 3}, {"L": 3}, "the field volumes", "volumes")
        rho = c.func("density", "i", "r")
        d = W.q(SArr((D.n,), lambda i: SV(rho(term(i))), "r", "densities"), fr, {"M": 1, "L": -3}, {"M": 1, "L": -3}, "the field densities", "densities")
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        c.assume(land(SV(vol(i.t) > 0), SV(rho(i.t) > 0)))
        A = {"masses": m, "group_name": "gas"}
        has = {}
        for n, q in (("smoothing_lengths", h), ("smoothing_length", h), ("volumes", w), ("densities", d)):
            has[n] = bool(c.choose(2)) if key != "histogram" else True
            if has[n]:
                A[n] = q
        data = SymObj(Rec, A, name="data")
        try:
            r = I.call(funcval(table[key]) if not isinstance(table[key], type) else table[key], [data], {})
        except AttributeError:
            c.oblige(not has["smoothing_lengths"] and not has["smoothing_length"] and key != "histogram"
                     and not (key == "nearest_neighbours" and (has["volumes"] or has["densities"])), "refused only without smoothing lengths")
            return
        if key == "histogram":
            c.oblige(r is None or W.is_q(r) and r.owned is None, "no field of the dataset is used as scratch space")
            return
        if key == "nearest_neighbours" and (has["volumes"] or has["densities"]):
            ok = W.is_q(r) and r.dim == {"L": 1} and r.fac == {"L": 1}
            c.oblige(ok, "a length per particle")
            if ok:
                x = as_real(W.in_frame(r.data, r.frame, r.fac, fr).get(i))
                want = vol(i.t) if has["volumes"] else as_real(W.divide(D.M(i), SV(rho(i.t))))
                c.oblige(SV(x * x * x == want), "the side of a cube as large as the particle")
            return
        c.oblige(r is h, "the smoothing lengths of the file are used")
    return job.run(body)


def deposit_job():
    """render_to_deposit: numbers in the frame of the coordinates go in; mass per volume comes out, in that frame."""
    job = Job("render_to_deposit", budget_s=150)

    def body(job, I, c):
        W = World(job, I, c)
        frame, mframe = bool(c.choose(2)), bool(c.choose(2))
        D = Data(W, c, frame)
        M = mod(V + "power_spectrum")
        f = getattr(M, "render_to_deposit", None)
        if f is None:
            raise CannotAttach("render_to_deposit")
        parallel = bool(c.choose(2))
        fold = c.choose(3)
        q = W.q(SArr((D.n,), lambda i: D.M(i), "r", "m"), mframe, {"M": 1}, {"M": 1}, "the field masses", "masses")
        res = c.int("resolution")
        raw = c.real("cell")
        calls = []
        for n in ("deposit", "deposit_parallel"):
            g = getattr(M, n, None)
            if g is None:
                raise CannotAttach(n)

            def dep(I, fv, a, k, n=n):
                job.assumed.add("contract:" + fv.qual + " (C20)")
                calls.append((n, I.bind(fv, a, k)))
                return SymObj(Backend, {"cell": raw}, name="deposition")
            job.contracts[funcval(g).qual] = dep

        def make(x, units=None, *a, comoving=None, cosmo_factor=None, **k):
            if a or k or not (isinstance(x, SymObj) and x.cls is Backend):
                raise Unsupported("array made")
            if W.is_q(units):
                data, dim = W.ew(lambda u, v: u * v, raw, units.data), units.dim     # unyt: a quantity as unit is its number of its unit
            else:
                data, dim = raw, units.dim
            return W.q(data, comoving, dim, cosmo_factor.fac if cosmo_factor is not None else {}, None, "deposition")
        I.class_models[W.cls] = make
        data = record("data", coordinates=D.coordinates, metadata=D.md, masses=q, smoothing_lengths=D.hsml(frame))
        try:
            r = I.call(funcval(f), [data, res], {"project": "masses", "folding": fold, "parallel": parallel})
        except AttributeError:
            c.oblige(lnot(SV(W.flag(q, "comoving" if frame else "physical"))), "refused only if the field has no value in the frame of the coordinates")
            return
        c.oblige(len(calls) == 1 and calls[0][0] == ("deposit_parallel" if parallel else "deposit"), "particles are deposited once, in the way asked for")
        if len(calls) != 1:
            return
        v = calls[0][1]
        i = c.int("i")
        c.assume(land(i >= 0, compare("<", i, D.n)))
        L = D.length(frame)
        for k, n in enumerate("xyz"):
            x = v.get(n)
            if not isinstance(x, SArr):
                raise Unsupported("coordinates deposited")
            W.equal(c, x.shape[0], D.n, "every particle is deposited")
            W.equal(c, x.get(i), D.X(i, k), f"{n} is the coordinate")
            b = v.get("box_" + n)
            c.oblige(kind(b) in "ir", "the box is a number")
            W.equal(c, b, L[k], f"box_{n} is the box in the frame of the coordinates")
        if not isinstance(v.get("m"), SArr):
            raise Unsupported("field deposited")
        W.equal(c, v["m"].shape[0], D.n, "every particle is deposited")
        W.equal(c, v["m"].get(i), D.M(i), "m is the field")
        W.equal(c, v.get("res"), res, "the resolution is that asked for")
        W.equal(c, v.get("fold"), 2 ** fold, "folded as often as asked for")
        ok = W.is_q(r) and r.frame is frame
        c.oblige(ok, "the deposition is in the frame of the coordinates")
        if ok:
            c.oblige(r.dim == {"M": 1, "L": -3} and r.fac == {"M": 1, "L": -3}, "the deposition has the units and scaling of the field per volume")
            c.oblige(SV(as_real(r.data) * as_real(L[0]) * as_real(L[1]) * as_real(L[2]) == raw.t), "the deposition is what was deposited, per volume of the box")
    return job.run(body)
