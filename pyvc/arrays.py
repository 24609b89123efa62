"""Symbolic arrays (functions from indices to scalars), boolean selections, and lists of symbolic length."""
import z3
from .values import (SV, Unsupported, arith, as_bool, compare, concrete, ctx, ite, is_sym, kind, land, lnot, lor, mk,
                     term)


def dim_eq(a, b):
    """Are two dimensions provably equal?"""
    a, b = concrete(a), concrete(b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_sym(a) and is_sym(b) and a.t.eq(b.t):
        return True
    c = compare("==", a, b)
    if c is True or c is False:
        return c
    return ctx().entails(c)


class SArr:
    """An array value: shape and element function; mutable through .fn. `lst` marks a python list."""

    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, shape, fn, dt="r", name="arr", lst=False):
        self.shape = tuple(shape)
        self.fn = fn
        self.dt = dt
        self.name = name
        self.lst = lst
        c = ctx()
        self.depth = len(c.loops)
        c.n += 1
        self.uid = c.n
        c.arrays[self.uid] = self
        self.view_of = None       # (base, map idx->base idx)
        self.total = None
        self.frozen = False       # mutation is a frame violation
        self.attrs = {}
        self.poisoned = None

    # numpy-like attributes used by the interpreter
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r if is_sym(s) else r * s
        return r

    @property
    def T(self):
        return SArr(self.shape[::-1], lambda *ix: self.get(*ix[::-1]), self.dt, self.name + ".T")

    def get(self, *ix):
        self.note_read()
        if self.view_of is not None:
            base, m = self.view_of
            return base.get(*m(*ix))
        return self.fn(*ix)

    def note_read(self):
        if self.poisoned:
            raise Unsupported(self.poisoned)
        c = ctx()
        if len(c.loops) > self.depth and not c.spec:
            for g in c.loops[self.depth:]:
                c.job.reads.add((self.uid, g.uid, g.prefix))

    def snapshot(self):
        """A frozen element function of the current contents."""
        self.note_read()
        if self.view_of is not None:
            base, m = self.view_of
            f = base.snapshot()
            return lambda *ix: f(*m(*ix))
        return self.fn

    def copy(self):
        return SArr(self.shape, self.snapshot(), self.dt, self.name)

    def store(self, ix, val, op="="):
        """Write one element."""
        if self.poisoned:
            raise Unsupported(self.poisoned)
        if self.view_of is not None:
            base, m = self.view_of
            return base.store(m(*ix), val, op)
        c = ctx()
        if self.frozen:
            c.oblige(False, f"{self.name} is not modified (frame)", kind="frame")
        if "range" in self.attrs and op == "=" and kind(val) == "i":
            lo, hi, nm = self.attrs["range"]
            c.oblige(land(compare(">=", val, lo), compare("<=", val, hi)), f"value stored in {self.name} fits {nm}", kind="safety")
        if len(c.loops) > self.depth:
            c.job.write_event(c, self, tuple(ix), op, val)
            return
        old = self.fn
        if op == "+=":
            val = old(*ix) + val
        elif op == "-=":
            val = old(*ix) - val
        elif op == "*=":
            val = old(*ix) * val
        elif op != "=":
            raise Unsupported(op)
        ix = tuple(ix)

        def fn(*jx):
            return ite(land(*[compare("==", a, b) for a, b in zip(ix, jx)]), val, old(*jx))
        self.fn = fn

    def set_all(self, fn):
        """Replace the contents elementwise."""
        if self.view_of is not None:
            base, m = self.view_of
            raise Unsupported("bulk write through a view")
        c = ctx()
        if self.frozen:
            c.oblige(False, f"{self.name} is not modified (frame)", kind="frame")
        if len(c.loops) > self.depth:
            raise Unsupported("bulk write to an outer array inside a summarised loop")
        self.fn = fn

    def append(self, row):
        if not self.lst:
            raise Unsupported("append on an array")
        n = self.shape[0]
        old = self.fn
        self.shape = (n + 1,) + self.shape[1:]
        if len(self.shape) == 2:
            row = list(row_elems(row))
            if len(row) != self.shape[1]:
                raise Unsupported("row width")

            def fn(k, j):
                v = row[-1]
                for q in range(len(row) - 2, -1, -1):
                    v = ite(compare("==", j, q), row[q], v)
                return ite(compare("==", k, n), v, old(k, j))
        else:
            def fn(k):
                return ite(compare("==", k, n), row, old(k))
        self.fn = fn

    # operators
    def __add__(self, o): return elementwise(lambda x, y: x + y, self, o)
    def __radd__(self, o): return elementwise(lambda x, y: y + x, self, o)
    def __sub__(self, o): return elementwise(lambda x, y: x - y, self, o)
    def __rsub__(self, o): return elementwise(lambda x, y: y - x, self, o)
    def __mul__(self, o): return elementwise(lambda x, y: x * y, self, o)
    def __rmul__(self, o): return elementwise(lambda x, y: y * x, self, o)
    def __truediv__(self, o): return elementwise(lambda x, y: x / y, self, o)
    def __rtruediv__(self, o): return elementwise(lambda x, y: y / x, self, o)
    def __floordiv__(self, o): return elementwise(lambda x, y: x // y, self, o)
    def __mod__(self, o): return elementwise(lambda x, y: x % y, self, o)
    def __pow__(self, o): return elementwise(lambda x, y: x ** y, self, o)
    def __neg__(self): return elementwise(lambda x: -x, self)
    def __lt__(self, o): return elementwise(lambda x, y: x < y, self, o)
    def __le__(self, o): return elementwise(lambda x, y: x <= y, self, o)
    def __gt__(self, o): return elementwise(lambda x, y: x > y, self, o)
    def __ge__(self, o): return elementwise(lambda x, y: x >= y, self, o)
    def __eq__(self, o): return elementwise(lambda x, y: compare("==", x, y), self, o)
    def __ne__(self, o): return elementwise(lambda x, y: compare("!=", x, y), self, o)
    def __and__(self, o): return elementwise(lambda x, y: land(x, y), self, o)
    def __or__(self, o): return elementwise(lambda x, y: lor(x, y), self, o)
    def __invert__(self): return elementwise(lnot, self)

    def __repr__(self):
        return f"<SArr {self.name} {self.shape}>"

    def __bool__(self):
        raise Unsupported("truth value of an array")


class SSel:
    """arr[mask]: the elements of `arr` where `mask` holds, kept in the index space of the mask.

    fn(i, *rest) is the value at base index i (meaningful where mask(i))."""

    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, n, mask_fn, fn, tail=(), dt="r", key=None):
        self.n, self.mask_fn, self.fn, self.tail, self.dt, self.key = n, mask_fn, fn, tuple(tail), dt, key
        self._count = None

    def same_selection(self, o):
        return self.key is not None and self.key is o.key

    def __add__(self, o): return elementwise(lambda x, y: x + y, self, o)
    def __radd__(self, o): return elementwise(lambda x, y: y + x, self, o)
    def __sub__(self, o): return elementwise(lambda x, y: x - y, self, o)
    def __rsub__(self, o): return elementwise(lambda x, y: y - x, self, o)
    def __mul__(self, o): return elementwise(lambda x, y: x * y, self, o)
    def __rmul__(self, o): return elementwise(lambda x, y: y * x, self, o)
    def __truediv__(self, o): return elementwise(lambda x, y: x / y, self, o)
    def __lt__(self, o): return elementwise(lambda x, y: x < y, self, o)
    def __le__(self, o): return elementwise(lambda x, y: x <= y, self, o)
    def __gt__(self, o): return elementwise(lambda x, y: x > y, self, o)
    def __ge__(self, o): return elementwise(lambda x, y: x >= y, self, o)
    def __eq__(self, o): return elementwise(lambda x, y: compare("==", x, y), self, o)
    def __ne__(self, o): return elementwise(lambda x, y: compare("!=", x, y), self, o)
    def __and__(self, o): return elementwise(lambda x, y: land(x, y), self, o)
    def __or__(self, o): return elementwise(lambda x, y: lor(x, y), self, o)
    def __invert__(self): return elementwise(lnot, self)


def clean(t):
    """May be used as a trigger."""
    st = [t]
    top = True
    while st:
        x = st.pop()
        if not z3.is_app(x) or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return False
        if top and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        top = False
        st.extend(x.children())
    return True


class Selection:
    """The positions where a mask holds, in order: count, Z(0) < Z(1) < ..., and its inverse."""

    def __init__(self, n, mask_fn):
        c = ctx()
        self.n = n
        self.count = c.int("count")
        self.Z, self.inv = c.func("sel", "i", "i"), c.func("selinv", "i", "i")
        Z, inv, k, nn = self.Z, self.inv, self.count.t, term(n)
        i, j = z3.Ints("i!z j!z")
        m = lambda t: as_bool(mask_fn(SV(t)))
        c.assume(z3.And(k >= 0, k <= nn))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(Z(i) >= i, Z(i) < nn, m(Z(i)), inv(Z(i)) == i)), patterns=[Z(i)]))
        body = z3.Implies(z3.And(i >= 0, i < nn, m(i)), z3.And(inv(i) >= 0, inv(i) <= i, inv(i) < k, Z(inv(i)) == i))
        c.assume(z3.ForAll([i], body, patterns=[inv(i)] + ([m(i)] if clean(m(i)) else [])))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < k), Z(i) < Z(j)), patterns=[z3.MultiPattern(Z(i), Z(j))]))


def selection(n, mask_fn, key):
    c = ctx()
    d = c.bindings.setdefault("selections", {})
    if id(key) not in d:
        d[id(key)] = (key, Selection(n, mask_fn))
    return d[id(key)][1]


def mask_selection(mask):
    """The selection of a boolean array."""
    mf = mask.snapshot()
    key = mask.attrs.get("selkey")
    if key is None or mask.attrs.get("selfn") is not mf:
        key = object()
        mask.attrs["selkey"], mask.attrs["selfn"] = key, mf
    return selection(mask.shape[0], mf, key)


def compress(s):
    """A boolean selection as an array of its own."""
    if not isinstance(s, SSel):
        return s
    if s.key is None:
        raise Unsupported("selection without a mask")
    sel = selection(s.n, s.mask_fn, s.key)
    f = s.fn
    a = SArr((sel.count,) + s.tail, lambda i, *r: f(SV(sel.Z(term(i))), *r), s.dt, "selected")
    a.attrs["selection"] = sel
    return a


def row_elems(x):
    """Elements of a fixed-length row (tuple, list or array with concrete first dimension)."""
    if isinstance(x, SArr):
        n = concrete(x.shape[0])
        if is_sym(n):
            raise Unsupported("unpacking an array of symbolic length")
        return [getitem(x, i) for i in range(n)]
    return list(x)


def res_kind(v):
    return kind(v)


def elementwise(f, *ops):
    """Broadcast an elementwise function over arrays, selections and scalars (values are snapshotted)."""
    import numpy as np
    ops = [from_concrete(o) if isinstance(o, (list, tuple, np.ndarray)) else o for o in ops]
    sels = [o for o in ops if isinstance(o, SSel)]
    if sels:
        s0 = sels[0]
        if any(isinstance(o, SSel) and not o.same_selection(s0) or isinstance(o, SArr) and o.ndim > len(s0.tail) for o in ops):
            return elementwise(f, *[compress(o) for o in ops])
        for o in ops:
            if isinstance(o, SSel) and not o.same_selection(s0):
                raise Unsupported("mixing different boolean selections")
            if isinstance(o, SArr) and o.ndim > 0:
                if o.ndim <= len(s0.tail):
                    continue
                raise Unsupported("array with selection")
        tails = [o.tail if isinstance(o, SSel) else (o.shape if isinstance(o, SArr) else ()) for o in ops]
        tail = bshape(tails)
        fs = [(o.fn if isinstance(o, SSel) else o.snapshot() if isinstance(o, SArr) else None) for o in ops]

        def fn(i, *rest):
            vals = []
            for o, g, t in zip(ops, fs, tails):
                if isinstance(o, SSel):
                    vals.append(g(i, *bidx(rest, t)))
                elif isinstance(o, SArr):
                    vals.append(g(*bidx(rest, t)))
                else:
                    vals.append(o)
            return f(*vals)
        return SSel(s0.n, s0.mask_fn, fn, tail, key=s0.key)
    shapes = [o.shape if isinstance(o, SArr) else () for o in ops]
    shape = bshape(shapes)
    fs = [o.snapshot() if isinstance(o, SArr) else None for o in ops]

    def fn(*ix):
        return f(*[(g(*bidx(ix, s)) if g is not None else o) for o, g, s in zip(ops, fs, shapes)])
    if shape == ():
        return fn()
    return SArr(shape, fn, name="expr")


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        d = 1
        for s in shapes:
            if len(s) < nd - ax:
                continue
            e = concrete(s[ax - nd])
            if not is_sym(e) and e == 1:
                continue
            if not is_sym(d) and d == 1:
                d = e
            elif not dim_eq(d, e):
                ctx().oblige(compare("==", d, e), "operands have equal lengths", kind="safety")
        out.append(d)
    return tuple(out)


def bidx(ix, shape):
    if not shape:
        return ()
    ix = ix[len(ix) - len(shape):]
    return tuple(0 if (not is_sym(concrete(s)) and concrete(s) == 1) else i for i, s in zip(ix, shape))


def from_concrete(o):
    """A concrete (nested) sequence or ndarray, possibly holding symbolic scalars, as an SArr."""
    import numpy as np
    if isinstance(o, np.ndarray):
        o = o.tolist() if o.ndim else o.item()
        if not isinstance(o, list):
            return o
    if isinstance(o, (list, tuple)):
        items = list(o)
        n = len(items)
        items = [from_concrete(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in items]
        if n == 0:
            return SArr((0,), lambda i: 0.0)
        if isinstance(items[0], SArr):
            tail = items[0].shape

            def fn(i, *rest):
                i = concrete(i)
                if not is_sym(i):
                    return items[i].get(*rest)
                v = items[-1].get(*rest)
                for q in range(n - 2, -1, -1):
                    v = ite(compare("==", i, q), items[q].get(*rest), v)
                return v
            return SArr((n,) + tail, fn)

        def fn(i):
            i = concrete(i)
            if not is_sym(i):
                return items[i]
            v = items[-1]
            for q in range(n - 2, -1, -1):
                v = ite(compare("==", i, q), items[q], v)
            return v
        return SArr((n,), fn)
    return o


def norm_index(i, n, arr, check=True):
    """Normalise one integer index against dimension n, with the bounds obligation."""
    i = concrete(i)
    if not is_sym(i):
        i = int(i)
        if i < 0:
            j = n + i
            if check:
                need(compare(">=", j, 0), arr)
            return j
        if check:
            need(compare("<", i, n), arr)
        return i
    if check:
        need(land(compare(">=", i, 0), compare("<", i, n)), arr)
    return i


def need(cond, arr):
    if cond is True:
        return
    ctx().oblige(cond, f"index into {arr.name} is in bounds", kind="safety")


def norm_slice(s, n):
    """Start, length, step of a slice on a dimension n (python clamping semantics)."""
    step = concrete(s.step) if s.step is not None else 1
    if is_sym(step) or step not in (1, -1):
        raise Unsupported("slice step")
    if step == -1:
        if s.start is None and s.stop is None:
            return n - 1, n, -1
        raise Unsupported("negative-step slice with bounds")

    def clampv(v, default):
        if v is None:
            return default
        v = concrete(v)
        if not is_sym(v) and v < 0:
            v = n + v
            return ite(compare("<", v, 0), 0, v)
        if is_sym(v):
            c = ctx()
            if not c.entails(as_bool(compare(">=", v, 0))):
                v = ite(compare("<", v, 0), ite(compare("<", n + v, 0), 0, n + v), v)
            if c.entails(as_bool(compare("<=", v, n))):
                return v
            return ite(compare("<", n, v), n, v)
        if not is_sym(concrete(n)):
            return min(v, concrete(n))
        if v == 0:
            return 0
        if ctx().entails(as_bool(compare("<=", v, n))):
            return v
        return ite(compare("<", n, v), n, v)
    a = clampv(s.start, 0)
    b = clampv(s.stop, n)
    ln = b - a if (is_sym(a) or is_sym(b)) else max(0, b - a)
    if is_sym(ln) and not ctx().entails(as_bool(compare(">=", ln, 0))):
        ln = ite(compare("<", ln, 0), 0, ln)
    return a, ln, 1


def getitem(arr, key):
    if isinstance(arr, SSel):
        return sel_getitem(arr, key)
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        nn = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (slice(None),) * (arr.ndim - nn) + key[p + 1:]
    nn = sum(1 for k in key if k is not None)
    key = key + (slice(None),) * (arr.ndim - nn)
    # boolean mask / fancy in the first position
    k0 = key[0]
    if isinstance(k0, list):
        k0 = from_concrete(k0)
        key = (k0,) + key[1:]
    if isinstance(k0, SArr) and k0.ndim == 1:
        if isbool(k0):
            return mask_select(arr, k0, key[1:])
        rest = key[1:]
        fs = arr.snapshot()
        if all(isinstance(k, slice) and k == slice(None) for k in rest):
            kf = k0.snapshot()
            g = generic_index(k0)
            if g is not None:
                norm_index(g, arr.shape[0], arr)
            return SArr(k0.shape + arr.shape[1:], lambda i, *r: fs(kf(i), *r), arr.dt, arr.name + "[idx]")
        if len(rest) == 1 and not isinstance(rest[0], (slice, SArr)) and rest[0] is not None:
            kf = k0.snapshot()
            g = generic_index(k0)
            if g is not None:
                norm_index(g, arr.shape[0], arr)
            j = norm_index(rest[0], arr.shape[1], arr)
            return SArr(k0.shape, lambda i: fs(kf(i), j), arr.dt, arr.name + "[idx]")
        raise Unsupported("fancy index form")
    shape, maps, ax = [], [], 0
    for k in key:
        if k is None:
            shape.append(1)
            maps.append(("new",))
            continue
        n = arr.shape[ax]
        if isinstance(k, slice):
            a, ln, st = norm_slice(k, n)
            shape.append(ln)
            maps.append(("sl", a, st))
        elif isinstance(k, SArr):
            if isbool(k) and ax > 0:
                raise Unsupported("mask on a later axis")
            kf = k.snapshot()
            shape.append(k.shape[0])
            maps.append(("fx", kf))
        else:
            maps.append(("ix", norm_index(k, n, arr)))
        ax += 1

    def m(*jx):
        out, p = [], 0
        for e in maps:
            if e[0] == "new":
                p += 1
            elif e[0] == "sl":
                j = jx[p]
                p += 1
                out.append(j if (e[2] == 1 and not is_sym(e[1]) and e[1] == 0) else
                           (e[1] + j if e[2] == 1 else e[1] - j))
            elif e[0] == "fx":
                out.append(e[1](jx[p]))
                p += 1
            else:
                out.append(e[1])
        return tuple(out)
    if not shape:
        return arr.get(*m())
    v = SArr(shape, None, arr.dt, arr.name)
    v.view_of = (arr, m)
    v.depth = arr.depth
    if any(e[0] == "fx" for e in maps):
        f = arr.snapshot()
        return SArr(shape, lambda *jx: f(*m(*jx)), arr.dt, arr.name)
    return v


def generic_index(k0):
    """An arbitrary element of an index array (for bounds obligations)."""
    n = concrete(k0.shape[0])
    c = ctx()
    i = c.int("any")
    c.assume(land(compare(">=", i, 0), compare("<", i, n)) if not (not is_sym(n) and n == 0) else True)
    if not is_sym(n) and n == 0:
        return None
    return k0.get(i)


def isbool(a):
    if a.dt == "b":
        return True
    try:
        ix = [ctx().int("p") for _ in a.shape]
        return kind(a.get(*ix)) == "b"
    except Unsupported:
        return False


def mask_select(arr, mask, rest):
    if isinstance(arr, SArr) and not dim_eq(arr.shape[0], mask.shape[0]):
        ctx().oblige(compare("==", arr.shape[0], mask.shape[0]), "mask length equals array length", kind="safety")
    f = arr.snapshot()
    mf = mask.snapshot()
    tail, maps, ax = [], [], 1
    for k in rest:
        n = arr.shape[ax]
        if isinstance(k, slice):
            a, ln, st = norm_slice(k, n)
            tail.append(ln)
            maps.append(("sl", a, st))
        else:
            maps.append(("ix", norm_index(k, n, arr)))
        ax += 1

    def fn(i, *r):
        out, p = [], 0
        for e in maps:
            if e[0] == "sl":
                out.append(r[p] + e[1] if is_sym(e[1]) or e[1] != 0 else r[p])
                p += 1
            else:
                out.append(e[1])
        return f(i, *out)
    key = mask.attrs.get("selkey")
    if key is None or mask.attrs.get("selfn") is not mf:
        key = object()
        mask.attrs["selkey"], mask.attrs["selfn"] = key, mf
    return SSel(mask.shape[0], mf, fn, tail, arr.dt, key)


def sel_getitem(s, key):
    if isinstance(key, tuple) and isinstance(key[0], slice) and key[0] == slice(None):
        rest = key[1:]
        f = s.fn
        if len(rest) == 1 and not isinstance(rest[0], slice):
            return SSel(s.n, s.mask_fn, lambda i, *r: f(i, rest[0], *r), s.tail[1:], s.dt, s.key)
    return getitem(compress(s), key)


def setitem(arr, key, val, op="="):
    import numpy as np
    if isinstance(val, (list, tuple, np.ndarray)):
        val = from_concrete(val)
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        key = key[:p] + (slice(None),) * (arr.ndim - (len(key) - 1)) + key[p + 1:]
    key = key + (slice(None),) * (arr.ndim - len(key))
    key = tuple(from_concrete(k) if isinstance(k, list) else k for k in key)
    if all(not isinstance(k, (slice, SArr)) for k in key):
        ix = tuple(norm_index(k, n, arr) for k, n in zip(key, arr.shape))
        if isinstance(val, SArr):
            if all(concrete(s) == 1 for s in val.shape):
                val = val.get(*[0] * val.ndim)
            else:
                raise Unsupported("storing an array in an element")
        arr.store(ix, val, op)
        return
    if arr.view_of is not None:
        base, m = arr.view_of
        raise Unsupported("bulk write through a view")
    old = arr.snapshot()
    if isinstance(key[0], SArr) and isbool(key[0]):
        mask = key[0]
        if not dim_eq(arr.shape[0], mask.shape[0]):
            ctx().oblige(compare("==", arr.shape[0], mask.shape[0]), "mask length equals array length", kind="safety")
        if any(not (isinstance(k, slice) and k == slice(None)) for k in key[1:]):
            raise Unsupported("mask store with further index")
        mf = mask.snapshot()
        if isinstance(val, SSel):
            if not (mask.attrs.get("selkey") is val.key and mask.attrs.get("selfn") is mf):
                raise Unsupported("mask store from a different selection")
            vf = val.fn
        elif isinstance(val, SArr):
            sel = mask_selection(mask)
            if not dim_eq(val.shape[0], sel.count):
                ctx().oblige(compare("==", val.shape[0], sel.count), "as many values are stored as the mask selects", kind="safety")
            vv = val.snapshot()

            def vf(i, *r): return vv(SV(sel.inv(term(i))), *r)
        else:
            def vf(*ix): return val

        def fn(i, *r):
            v = vf(i, *r)
            if op == "+=":
                v = old(i, *r) + v
            return ite(mf(i), v, old(i, *r))
        arr.set_all(fn)
        return
    if isinstance(key[0], SArr):
        # fancy store a[idx] = v: only for idx a permutation-like array with a known inverse
        inv = key[0].attrs.get("inverse")
        if inv is not None and len(key) == 1 and isinstance(val, SArr):
            vf = val.snapshot()
            arr.set_all(lambda i: vf(inv(i)))
            return
        if len(key) == 1 and not isinstance(val, (SArr, SSel)):
            kf = key[0].snapshot()
            n = key[0].shape[0]
            g = generic_index(key[0])
            if g is not None:
                norm_index(g, arr.shape[0], arr)

            def member(i):
                q = z3.Int("q!m")
                return mk(z3.Exists([q], z3.And(q >= 0, q < term(n), term(compare("==", kf(SV(q)), i)))))
            arr.set_all(lambda i: ite(member(i), val, old(i)))
            return
        raise Unsupported("fancy store")
    conds = []
    for k, n in zip(key, arr.shape):
        if isinstance(k, slice):
            a, ln, st = norm_slice(k, n)
            if st != 1:
                raise Unsupported("reversed slice store")
            conds.append(("sl", a, ln))
        elif isinstance(k, SArr):
            raise Unsupported("fancy store on later axis")
        else:
            conds.append(("ix", norm_index(k, n, arr)))
    lens = [c[2] for c in conds if c[0] == "sl"]
    val = compress(val)
    vshape = val.shape if isinstance(val, SArr) else ()
    if vshape:
        for d, e in zip(lens[len(lens) - len(vshape):], vshape):
            e1 = concrete(e)
            if not is_sym(e1) and e1 == 1:
                continue
            if not dim_eq(d, e):
                ctx().oblige(compare("==", d, e), f"stored block has the length of the slice of {arr.name}", kind="safety")
    vf = val.snapshot() if isinstance(val, SArr) else None

    def fn(*ix):
        cs, rel = [], []
        for c, i in zip(conds, ix):
            if c[0] == "sl":
                a, ln = c[1], c[2]
                cs.append(compare(">=", i, a))
                cs.append(compare("<", i, a + ln))
                rel.append(i - a)
            else:
                cs.append(compare("==", i, c[1]))
        v = vf(*bidx(tuple(rel), vshape)) if vf is not None else val
        if op == "+=":
            v = old(*ix) + v
        elif op == "*=":
            v = old(*ix) * v
        elif op == "-=":
            v = old(*ix) - v
        elif op != "=":
            raise Unsupported(op)
        return ite(land(*cs), v, old(*ix))
    arr.set_all(fn)


def fresh_array(name, shape, dt="r"):
    """An arbitrary array."""
    c = ctx()
    f = c.func(name, *(["i"] * len(shape)), dt)
    return SArr(shape, lambda *ix: SV(f(*[term(i) for i in ix])), dt, name.split("!")[0])


def reshape(arr, shape):
    """The same elements under another shape, where the element numbers relate linearly (between one dimension and several
    whose last ones have known lengths). The result takes the storage over: the old name may not be used any more, since
    the two would share it -- unless neither may be written."""
    if arr.view_of is not None or arr.lst:
        raise Unsupported("reshape of a view")
    shape = [concrete(s) for s in shape]
    old = [concrete(s) for s in arr.shape]

    def strides(sh):
        r, out = 1, []
        for s in reversed(sh):
            out.append(r)
            r = r * s if not is_sym(s) else s * r
        return out[::-1], r
    if sum(1 for s in shape if not is_sym(s) and s == -1) == 1:
        at = next(q for q, s in enumerate(shape) if not is_sym(s) and s == -1)
        rest = shape[:at] + shape[at + 1:]
        if len(shape) == 1:
            shape = [strides(old)[1]]
        elif len(old) == 1 and not any(is_sym(s) for s in rest):
            n = 1
            for s in rest:
                n *= s
            if n <= 0:
                raise Unsupported("reshape to nothing")
            ctx().oblige(compare("==", old[0] % n, 0), "the elements fill the new shape", kind="safety")
            shape[at] = old[0] // n
        else:
            raise Unsupported("reshape with an open length")
    if len(shape) == len(old) and all(dim_eq(a, b) for a, b in zip(shape, old)):
        st_old = st_new = None
    else:
        st_new, n_new = strides(shape)
        st_old, n_old = strides(old)
        ctx().oblige(compare("==", n_new, n_old), "the elements fill the new shape", kind="safety")
    f = arr.snapshot()
    if st_old is None:
        fn = f
    elif len(old) == 1:
        if any(is_sym(s) for s in st_new):
            raise Unsupported("reshape to rows of unknown length")

        def fn(*ix):
            return f(sum((i * s for i, s in zip(ix, st_new)), 0))
    elif len(shape) == 1:
        if any(is_sym(s) for s in st_old):
            raise Unsupported("reshape of rows of unknown length")

        def fn(i):
            ix = []
            for s in st_old[:-1]:
                ix.append(i // s)
                i = i % s
            return f(*ix, i)
    else:
        raise Unsupported("reshape between several dimensions")
    r = SArr(tuple(shape), fn, arr.dt, arr.name)
    if arr.frozen:
        r.frozen = True
    else:
        arr.poisoned = f"{arr.name} after reshape (shared storage)"
    return r
