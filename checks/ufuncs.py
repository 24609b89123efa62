"""Contracts of the cosmology bookkeeping around numpy's functions (C08): arguments brought to one frame, the factor of the result,
the attributes of the result."""
import ast
import importlib
from fractions import Fraction

import numpy as np
import unyt
import z3
from unyt import unyt_array, unyt_quantity

from checks.cosmo import Raised, attempt, den, model, objects
from checks.derived import bare, token
from checks.frames import FLAGS, STATES, World, rescale, state, unchanged
from pyvc.arrays import SArr
from pyvc.interp import SymObj
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, concrete, is_sym, kind, land, lnot, lor, power, term

AF = "swiftsimio._array_functions"


def functions():
    return importlib.import_module(AF)


class Operand:
    """One operand: `kind` is plain (a number or array), unyt (units, no frame) or cosmo in one of its states."""

    def __init__(self, w, k, name, cls=None, known=True, like=None):
        self.kind, self.name, self.c = k, name, w.c
        self.w = w
        self.comoving = self.vt = None
        self.vt = True
        self.cf = self.f = None
        if k == "plain":
            self.obj = [2.0, w.c.real(name)][w.c.choose(2)] if cls is None else 2.0
        elif k == "unyt":
            self.obj = bare(w, unyt_array, ("n",), w.unit("units of " + name))
            self.before = None
        else:
            self.comoving, self.vt = STATES[k]
            self.cf = like if like is not None else w.alg.factor("factor of " + name, known, known)
            self.obj = w.array(cls or objects().cosmo_array, self.comoving, self.vt, self.cf, name)
            self.f = den(self.cf)
            self.obj.attrs["compression"] = f"filter {w.arrays % 2}"
            self.before = state(self.obj)

    @property
    def cosmo(self):
        return self.kind not in ("plain", "unyt")

    def untouched(self):
        if self.cosmo:
            unchanged(self.c, self.obj, self.before, f"operand {self.name}")


KINDS = ["plain", "unyt"] + list(range(len(STATES)))


def mixed_none(ops):
    cm = [o.comoving for o in ops if o.cosmo]
    return None in cm and any(x is not None for x in cm)


def common_frame(ops):
    """The frame of the result of combining the operands: True, False, None or "raises"."""
    cm = [o.comoving for o in ops if o.cosmo]
    if not cm or all(x is None for x in cm):
        return [None]
    if None in cm:
        return ["raises"]
    if all(cm):
        return [True]
    if not any(cm):
        return [False]
    return [False] if any(o.vt is False for o in ops) else [True, False]


def in_frame(c, o, got, frame, what):
    """`got` is what operand `o` is in the frame: the same physical value, marked with the frame."""
    if not o.cosmo:
        c.oblige(got is o.obj, f"{what}: operands without a frame are passed on")
        return
    if not isinstance(got, SymObj) or "data" not in got.attrs:
        c.oblige(False, f"{what}: an array is passed on")
        return
    c.oblige(got.attrs.get("comoving", "missing") is frame, f"{what}: every operand is in the common frame")
    c.oblige(got.attrs["units"] is o.before["units"], f"{what}: the units are kept")
    moved = frame is not o.comoving
    if moved and o.f is None:
        c.oblige(False, f"{what}: nothing is converted by an unknown factor")
        return
    d = got.attrs["data"]
    if d.ndim == 0:
        c.oblige(compare("==", d.get(), rescale(o.before["fn"](), o.comoving, frame, o.f)), f"{what}: the physical values are kept")
        return
    i = c.int("i")
    n = o.before["shape"][0]
    c.assume(land(i >= 0, i < n))
    c.oblige(compare("==", d.shape[0], n), f"{what}: all values are passed on")
    c.oblige(compare("==", d.get(i), rescale(o.before["fn"](i), o.comoving, frame, o.f)), f"{what}: the physical values are kept")


def needs_unknown(ops, frame):
    return any(o.cosmo and o.comoving is not frame and o.f is None for o in ops)


def prepare_job(n, kw=0):
    """_prepare_array_func_args: n positional and kw keyword arguments."""
    job = Job(f"_prepare_array_func_args, {n}+{kw} arguments", budget_s=200, max_paths=20000)

    def body(job, I, c):
        w = World(job, I, c)
        fn = functions()._prepare_array_func_args
        kinds = KINDS if n + kw < 3 else ["plain", 0, 1, 2, 3]
        ops = [Operand(w, kinds[c.choose(len(kinds))], f"x{i}", known=n + kw > 2 or not c.choose(2)) for i in range(n + kw)]
        names = ["weights", "bins"][:kw]
        out = token("out") if c.choose(2) else None
        kwargs = {k: o.obj for k, o in zip(names, ops[n:])}
        if out is not None:
            kwargs["out"] = out
        r = attempt(lambda: I.call(fn, [o.obj for o in ops[:n]], kwargs))
        for o in ops:
            o.untouched()
        frames = common_frame(ops)
        if isinstance(r, Raised):
            if frames != ["raises"]:
                c.oblige(any(needs_unknown(ops, f) for f in frames), "raises only for operands that cannot be brought to one frame")
            return
        c.oblige(frames != ["raises"], "operands with and without a frame are not mixed")
        if frames == ["raises"]:
            return
        if not isinstance(r, dict) or not {"args", "kwargs", "cfs", "kw_cfs", "comoving", "valid_transform", "compression"} <= set(r):
            raise CannotAttach("_prepare_array_func_args")
        frame = r["comoving"]
        c.oblige(any(frame is f for f in frames), "the common frame; physical if an operand may not be made comoving")
        c.oblige(len(r["args"]) == n and set(r["kwargs"]) == set(kwargs), "all arguments are passed on")
        if not any(frame is f for f in frames) or len(r["args"]) != n:
            return
        for o, got in zip(ops, list(r["args"]) + [r["kwargs"][k] for k in names]):
            in_frame(c, o, got, frame, o.name)
        if out is not None:
            c.oblige(r["kwargs"]["out"] is out, "the output array itself is passed on")
        for o, cf in zip(ops, list(r["cfs"]) + [r["kw_cfs"][k] for k in names]):
            c.oblige(cf is o.cf, "the factors are those of the operands")
        vt = all(o.vt for o in ops)
        c.oblige(r["valid_transform"] is vt or r["valid_transform"] == vt, "the result may be made comoving if all operands may")
        c.oblige(not (r["comoving"] is True and not r["valid_transform"]) or all(o.comoving is True for o in ops if o.vt is False),
                 "what may not be made comoving is not")
    return job.run(body)


# --- what each function does to the scaling of its operands -------------------------------------------------------------------------
# law: operands' scalings (None: a pure number, or only units) -> one per result (None: a result without scaling)
def first(fs):
    return next((f for f in fs if f is not None), None)


def times(fs):
    r = None
    for f in fs:
        r = f if r is None else r if f is None else r * f
    return r


def over(f, g):
    return f if g is None else power(g, -1) if f is None else f * power(g, -1)


def pw(p):
    return lambda fs: [None if fs[0] is None else power(fs[0], p)]


class Maybe:
    """This scaling, or no statement: an auxiliary operand gives it where the array's own is unknown."""

    def __init__(self, f):
        self.f = f


def main(n=1):
    """The scaling of the first n operands; the others only have to agree."""
    def law(fs):
        f = first(fs[:n])
        return [f if f is not None or first(fs) is None else Maybe(first(fs))]
    return law


SAME = lambda fs: [first(fs)]
ONE = lambda fs: [fs[0]]
PRODUCT = lambda fs: [times(fs)]
QUOTIENT = lambda fs: [over(*fs)]
NONE = lambda fs: [None]
# ufunc: (number of operands, law, do the operands need one scaling)
LAWS = {np.add: (2, SAME, True), np.subtract: (2, SAME, True), np.multiply: (2, PRODUCT, False), np.divide: (2, QUOTIENT, False),
        np.floor_divide: (2, QUOTIENT, False), np.remainder: (2, SAME, True), np.fmod: (2, SAME, True), np.hypot: (2, SAME, True),
        np.maximum: (2, SAME, True), np.minimum: (2, SAME, True), np.fmax: (2, SAME, True), np.fmin: (2, SAME, True),
        np.matmul: (2, PRODUCT, False), np.vecdot: (2, PRODUCT, False), np.negative: (1, ONE, False), np.positive: (1, ONE, False),
        np.absolute: (1, ONE, False), np.fabs: (1, ONE, False), np.conj: (1, ONE, False), np.sqrt: (1, pw(0.5), False),
        np.cbrt: (1, pw(1 / 3), False), np.square: (1, pw(2), False), np.reciprocal: (1, pw(-1), False), np.copysign: (2, ONE, "either"),
        np.greater: (2, NONE, True), np.greater_equal: (2, NONE, True), np.less: (2, NONE, True), np.less_equal: (2, NONE, True),
        np.equal: (2, NONE, True), np.not_equal: (2, NONE, True), np.arctan2: (2, NONE, True), np.isfinite: (1, NONE, False),
        np.isinf: (1, NONE, False), np.isnan: (1, NONE, False), np.signbit: (1, NONE, False), np.sign: (1, NONE, False),
        np.logical_not: (1, NONE, False), np.divmod: (2, lambda fs: [over(*fs), first(fs)], True)}
REDUCED = {np.add: ONE, np.maximum: ONE, np.minimum: ONE, np.fmax: ONE, np.fmin: ONE, np.hypot: ONE}
BOOLEAN = {np.greater, np.greater_equal, np.less, np.less_equal, np.equal, np.not_equal, np.isfinite, np.isinf, np.isnan, np.signbit,
           np.logical_not, np.sign}


def setting(job, I, c):
    """Models of the little numpy and Python there is around the arrays with a frame."""
    w = World(job, I, c)
    old = I.models.get(np.power)

    def pow_(x, y, *a, **k):
        if isinstance(x, SymObj) and x.cls is objects().cosmo_factor:
            return I.binop(ast.Pow, x, y)
        return old(x, y, *a, **k)
    I.models[np.power] = pow_

    def iter_(x):
        if isinstance(x, SymObj) and "data" in x.attrs:
            if x.attrs["data"].ndim == 0:
                raise TypeError("iteration over a 0-d array")
            return token("iterator")
        if isinstance(x, SV):
            raise TypeError("not iterable")
        return iter(x)
    I.models[iter] = iter_
    job.assumed.add("numpy: the functions of the table scale with their operands as the table says (homogeneity)")
    return w


def same_factors(ops):
    """All operands with a factor have the same one (at the same scale factor)."""
    cf = [o.cf for o in ops if o.cf is not None]
    return land(True, True, *[land(compare("==", den(x), den(y)), compare("==", x.attrs["scale_factor"], y.attrs["scale_factor"]))
                              for x, y in zip(cf, cf[1:])])


def close_factors(ops):
    cf = [o.cf for o in ops if o.cf is not None]
    r = [land(True, True)]
    for x, y in zip(cf, cf[1:]):
        d = den(x) - den(y)
        r.append(land(compare("==", x.attrs["scale_factor"], y.attrs["scale_factor"]), d <= 2e-5 * den(y), -d <= 2e-5 * den(y)))
    return land(True, *r)


def same_scales(ops):
    cf = [o.cf for o in ops if o.cf is not None]
    return land(True, True, *[compare("==", x.attrs["scale_factor"], y.attrs["scale_factor"]) for x, y in zip(cf, cf[1:])])


def labelled(c, y, want, frame, vt, cls, what, exact=True):
    """Result y carries the frame and the scaling; cls is what unyt made (None: a plain value)."""
    if cls is None:
        c.oblige(not (isinstance(y, SymObj) and issubclass(y.cls, unyt_array)), f"{what}: plain results stay plain")
        return
    if not isinstance(y, SymObj) or not issubclass(y.cls, objects().cosmo_array):
        c.oblige(False, f"{what}: the result is cosmology-aware")
        return
    c.oblige((y.cls is objects().cosmo_quantity) == (y.attrs["data"].ndim == 0), f"{what}: a quantity exactly for a scalar")
    attributes(c, y, want, frame, vt, what, exact)


def attributes(c, y, want, frame, vt, what, exact=True):
    c.oblige(y.attrs["comoving"] is frame, f"{what}: marked with the frame of the values")
    c.oblige(y.attrs["valid_transform"] == vt, f"{what}: may be made comoving if all operands may")
    cf = y.attrs["cosmo_factor"]
    d = None if cf is None else den(cf)
    if want is None:
        c.oblige(d is None or compare("==", d, 1), f"{what}: has no scaling")
        return
    if d is None:
        c.oblige(isinstance(want, Maybe), f"{what}: the scaling is known")
        return
    if isinstance(want, Maybe):
        want = want.f
    if exact:
        c.oblige(compare("==", d, want), f"{what}: the scaling is that of the values")
    else:
        c.oblige(land(d - want <= 2e-5 * want, want - d <= 2e-5 * want), f"{what}: the scaling is that of the values")


RESULTS = [unyt_array, unyt_quantity, "cosmo"]


class Inner:
    """What unyt's own implementation is asked for, and what it gives."""

    def __init__(self, w, n=1, plain=False, out=None, classes=RESULTS):
        self.w, self.n, self.plain, self.out, self.calls, self.made = w, n, plain, out, [], []
        self.classes = classes
        self.cls = []

    def result(self):
        c = self.w.c
        if self.plain and c.choose(2):
            self.cls.append(None)
            return [True, 1.5][c.choose(2)]
        k = self.classes[c.choose(len(self.classes))]
        cls = objects().cosmo_array if k == "cosmo" else k
        self.cls.append(cls)
        shape = () if cls is unyt_quantity or cls is not unyt_quantity and c.choose(2) else ("n",)
        return bare(self.w, cls, shape, token("units of the result"))

    def of(self, right, args, kwargs):
        if not right:
            raise CannotAttach("use of unyt's implementation")
        return self(args, kwargs)

    def __call__(self, args, kwargs):
        self.calls.append((args, kwargs))
        if self.out is not None:
            self.made = list(self.out)
            self.cls = [o.cls if issubclass(o.cls, unyt_array) else None for o in self.made]
        else:
            self.made = [self.result() for _ in range(self.n)]
        return self.made[0] if self.n == 1 else tuple(self.made)


def check_raise(c, r, ops, same, law_same=None):
    """Operands are refused only if they cannot be combined."""
    frames = common_frame(ops)
    if frames == ["raises"]:
        return
    if same:
        bare_too = any(o.cf is None for o in ops)
        c.oblige(bare_too or lnot(same_factors(ops)), "operands of one scaling are not refused")
    else:
        c.oblige(lnot(same_scales(ops)), "operands at one scale factor are not refused")


def ufunc_job(ufunc, method="__call__", with_out=False, kinds=None):
    name = ufunc.__name__ + ("" if method == "__call__" else "." + method)
    n, law, same = LAWS[ufunc]
    n_out = ufunc.nout
    job = Job(f"cosmo_array.__array_ufunc__({name}{', out' if with_out else ''})", budget_s=200, max_paths=20000)

    def body(job, I, c):
        w = setting(job, I, c)
        ks = kinds or KINDS
        ops = [Operand(w, ks[c.choose(len(ks))], f"x{i}", cls=objects().cosmo_array) for i in range(n)]
        if not any(o.cosmo for o in ops) and not with_out:
            return
        outs = [w.array(objects().cosmo_array, *STATES[c.choose(3)], w.alg.factor("factor of out"), "out") for _ in range(n_out)] if with_out else None
        inner = Inner(w, n_out, plain=ufunc in BOOLEAN, out=outs, classes=RESULTS if n == 1 else RESULTS[:2])
        job.super_models["__array_ufunc__"] = lambda me: model(lambda u, m, *a, **k: inner.of(u is ufunc and m == method, a, k))
        me = next((o.obj for o in ops if o.cosmo), outs and outs[0])
        kw = {"out": tuple(outs)} if with_out else {}
        r = attempt(lambda: I.call(I.getattr(me, "__array_ufunc__"), [ufunc, method] + [o.obj for o in ops], kw))
        for o in ops:
            o.untouched()
        frames = common_frame(ops)
        if isinstance(r, Raised):
            check_raise(c, r, ops, same)
            return
        finish(c, w, ops, inner, r, law, same, outs)
    return job.run(body)


def finish(c, w, ops, inner, r, law, same, outs=None, extra=(), split=None):
    """Everything that was returned carries the frame of what was passed on, and the law's scaling."""
    frames = common_frame(ops)
    c.oblige(frames != ["raises"], "operands with and without a frame are not mixed")
    if frames == ["raises"]:
        return
    if len(inner.calls) != 1:
        raise CannotAttach("use of unyt's implementation")
    args, kwargs = inner.calls[0]
    got = list(args) if split is None else split(args, kwargs)
    if len(got) != len(ops):
        raise CannotAttach("operands of unyt's implementation")
    if not any(o.cosmo for o in ops):
        frame = None
    else:
        k = next(i for i, o in enumerate(ops) if o.cosmo)
        frame = got[k].attrs.get("comoving") if isinstance(got[k], SymObj) else "none"
    c.oblige(any(frame is f for f in frames), "the common frame; physical if an operand may not be made comoving")
    if not any(frame is f for f in frames):
        return
    for o, g in zip(ops, got):
        in_frame(c, o, g, frame, o.name)
    vt = all(o.vt for o in ops)
    if same is True:
        c.oblige(close_factors(ops), "only operands of one scaling are combined")
    elif same is False:
        c.oblige(same_scales(ops), "only operands at one scale factor are combined")
    want = law([o.f for o in ops])
    rs = list(r) if isinstance(r, tuple) else [r]
    c.oblige(len(rs) == len(inner.made), "as many results as there are")
    if len(want) != len(rs):
        raise CannotAttach("number of results")
    for y, m, cls, f in zip(rs, inner.made, inner.cls, want):
        if cls is None:
            c.oblige(y is m, "the result is unyt's")
        elif isinstance(y, SymObj) and "data" in y.attrs:
            c.oblige(y.attrs["data"] is m.attrs["data"] and y.attrs["units"] is m.attrs["units"], "values and units are those that unyt gives")
        labelled(c, y, f, frame, vt, cls, "result", exact=same is not True)
    if outs is not None:
        o2 = kwargs.get("out")
        o2 = o2 if isinstance(o2, tuple) else (o2,)
        c.oblige(len(o2) == len(outs) and all(p is q for p, q in zip(o2, outs)), "the output arrays themselves are written to")
        for o, f in zip(outs, want):
            attributes(c, o, f, frame, vt, "output array", exact=same is not True)


def power_job():
    """np.power with an exponent that is a number."""
    job = Job("cosmo_array.__array_ufunc__(power)", budget_s=100)

    def body(job, I, c):
        w = setting(job, I, c)
        x = Operand(w, KINDS[2 + c.choose(len(STATES))], "x", cls=objects().cosmo_array)
        p = [2, 0.5, -1, 0, 1, c.real("exponent")][c.choose(6)]
        e = Operand(w, "plain", "exponent", cls=float)
        e.obj = p
        inner = Inner(w, 1, classes=RESULTS[:2])
        job.super_models["__array_ufunc__"] = lambda me: model(lambda u, m, *a, **k: inner.of(u is np.power and m == "__call__", a, k))
        r = attempt(lambda: I.call(I.getattr(x.obj, "__array_ufunc__"), [np.power, "__call__", x.obj, p], {}))
        x.untouched()
        if isinstance(r, Raised):
            c.oblige(False, "a power of an array is given")
            return
        finish(c, w, [x, e], inner, r, lambda fs: [power(fs[0], p)], False)
    return job.run(body)


def reduce_job(ufunc):
    """ufunc.reduce, with or without an initial value (one more operand)."""
    product = ufunc is np.multiply
    job = Job(f"cosmo_array.__array_ufunc__({ufunc.__name__}.reduce)", budget_s=100, max_paths=20000)

    def body(job, I, c):
        w = setting(job, I, c)
        ks = KINDS[2:] if product else KINDS
        x = Operand(w, KINDS[2 + c.choose(len(STATES))], "x", cls=objects().cosmo_array)
        ops = [x]
        kw = {}
        dims = (c.int("rows"), c.int("columns"))
        for d in dims:
            c.assume(d >= 1)
        size = None
        if product:
            # a matrix as far as its shape goes
            x.obj.attrs[("getattr", "shape")] = lambda me: dims
            x.obj.attrs[("getattr", "size")] = lambda me: dims[0] * dims[1]
            size = lambda ax: dims[0] * dims[1] if ax is None else dims[ax]
            from unyt.array import POWER_MAPPING
            I.models[POWER_MAPPING[np.multiply]] = POWER_MAPPING[np.multiply]
            kw["axis"] = ax = [None, 0, 1][c.choose(3)]
        else:
            if c.choose(2):
                kw["axis"] = [None, 0][c.choose(2)]
            if c.choose(2):
                q = Operand(w, KINDS[c.choose(len(KINDS))], "initial", cls=objects().cosmo_array)
                ops.append(q)
                kw["initial"] = q.obj
        inner = Inner(w, 1)
        job.super_models["__array_ufunc__"] = lambda me: model(lambda u, m, *a, **k: inner.of(u is ufunc and m == "reduce", a, k))
        r = attempt(lambda: I.call(I.getattr(x.obj, "__array_ufunc__"), [ufunc, "reduce", x.obj], kw))
        for o in ops:
            o.untouched()
        if isinstance(r, Raised):
            check_raise(c, r, ops, True)
            return
        law = (lambda fs: [power(fs[0], size(kw["axis"]))]) if product else SAME
        finish(c, w, ops, inner, r, law, None if product else True, split=lambda a, k: list(a) + [k[n] for n in ("initial",) if n in k])
    return job.run(body)


# --- the functions of numpy's array-function protocol -------------------------------------------------------------------------------
def handled(fn):
    """The implementation registered for a function of numpy, and the one of unyt (or numpy) it is to be built on."""
    from unyt import _array_functions as ua
    H = functions()._HANDLED_FUNCTIONS
    if fn not in H:
        raise CannotAttach(f"{fn.__name__} is not implemented")
    return H[fn], ua._HANDLED_FUNCTIONS.get(fn, getattr(fn, "_implementation", None))


def outside():
    """Every function of unyt and numpy that may be called underneath."""
    from unyt import _array_functions as ua
    r = [f for f in list(vars(ua).values()) + list(ua._HANDLED_FUNCTIONS.values()) if callable(f) and not isinstance(f, type)]
    r += [f._implementation for f in list(functions()._HANDLED_FUNCTIONS) if hasattr(f, "_implementation")]
    return r


class F:
    """One function: `n` operands; `call(*objects)` gives (args, kwargs); `seen(args, kwargs)` finds the operands in what unyt is given;
    `law` as above; `same`: groups of operands that need one scaling (True: all); `res`: one letter per result, u (array or quantity
    with units) or p (plain)."""

    def __init__(self, fn, n, law, same=False, call=None, seen=None, res="u", out=False, kinds=None, id=None, product=None, groups=None, of=None, nested=False):
        self.fn, self.n, self.law, self.res, self.out, self.kinds = fn, n, law, res, out, kinds
        self.same = [list(range(n))] if same is True else same or []
        self.product = product if product is not None else range(n) if not self.same else []  # operands that need one scale factor
        self.groups = groups or [list(range(n))]  # operands that are brought to one frame, by default all
        self.nested = nested  # the results after the first in one more tuple
        self.of = of or [0] * len(res)  # and the group that the frame of each result is from
        self.call = call or (lambda *x: (list(x), {}))
        self.seen = seen or (lambda a, k: list(a))
        self.out = out or fn in WITH_OUT and id is None
        self.name = id or f"{fn.__module__.replace('numpy', 'np')}.{fn.__name__}"


def oplist(*x):
    return [list(x)], {}


def unlist(a, k):
    return list(a[0])


EX = ["plain"] + list(range(4))
WITH_OUT = [np.dot, np.outer, np.around, np.take, np.trace, np.clip, np.concatenate, np.stack, np.choose, np.einsum]
FUNCTIONS = \
    [F(f, 1, ONE) for f in (np.linalg.norm, np.around, np.trace, np.percentile, np.quantile, np.nanpercentile, np.nanquantile, np.ptp,
                            np.triu, np.tril, np.take, np.sort_complex, np.fft.fftshift, np.fft.ifftshift, np.linalg.eigvals,
                            np.linalg.eigvalsh, np.diff, np.ediff1d)] + \
    [F(getattr(np.fft, f), 1, ONE) for f in ("fft", "ifft", "rfft", "irfft", "hfft", "ihfft", "fft2", "ifft2", "fftn", "ifftn", "rfft2", "irfft2",
                                             "rfftn", "irfftn")] + \
    [F(np.var, 1, pw(2))] + [F(f, 1, pw(-1)) for f in (np.linalg.inv, np.linalg.pinv, np.linalg.tensorinv)] + \
    [F(f, 2, PRODUCT) for f in (np.dot, np.vdot, np.inner, np.outer, np.kron, np.cross, np.convolve, np.correlate, np.tensordot, np.linalg.outer)] + \
    [F(f, 2, SAME, True) for f in (np.intersect1d, np.union1d, np.setdiff1d, np.geomspace)] + \
    [F(np.linspace, 2, SAME, True), F(np.linspace, 2, lambda fs: SAME(fs) * 2, True, res="uu", call=lambda x, y: ([x, y], {"retstep": True}), id="np.linspace retstep")] + \
    [F(f, 2, NONE, True, res="p") for f in (np.searchsorted, np.digitize, np.isclose, np.allclose, np.array_equal, np.array_equiv, np.isin)] + \
    [F(f, 3, SAME, True, call=oplist, seen=unlist, kinds=EX) for f in (np.concatenate, np.vstack, np.hstack, np.dstack, np.column_stack, np.stack)] + \
    [F(np.linalg.solve, 2, lambda fs: [over(fs[1], fs[0])]), F(np.linalg.tensorsolve, 2, lambda fs: [over(fs[1], fs[0])]),
     F(np.linalg.lstsq, 2, lambda fs: [over(fs[1], fs[0]), None if fs[1] is None else power(fs[1], 2), None, fs[0]], res="uupu"),
     F(np.linalg.eig, 1, lambda fs: [fs[0], None], res="up"), F(np.linalg.eigh, 1, lambda fs: [fs[0], None], res="up"),
     F(np.linalg.svd, 1, lambda fs: [None, fs[0], None], res="pup", id="np.linalg.svd"),
     F(np.linalg.svd, 1, ONE, call=lambda x: ([x], {"compute_uv": False}), seen=lambda a, k: [a[0]], id="np.linalg.svd values"),
     F(np.diff, 2, main(), True, call=lambda x, q: ([x], {"prepend": q}), seen=lambda a, k: [a[0], k["prepend"]], id="np.diff prepend"),
     F(np.ediff1d, 2, main(), True, call=lambda x, q: ([x], {"to_end": q}), seen=lambda a, k: [a[0], k["to_end"]], id="np.ediff1d to_end"),
     F(np.pad, 2, main(), True, call=lambda x, q: ([x, 1], {"constant_values": q}), seen=lambda a, k: [a[0], k["constant_values"]]),
     F(np.choose, 3, SAME, True, call=lambda *x: ([[0, 1, 2], list(x)], {}), seen=lambda a, k: list(a[1]), kinds=EX),
     F(np.insert, 2, SAME, True, call=lambda x, y: ([x, 1, y], {}), seen=lambda a, k: [a[0], a[2]]),
     F(np.block, 3, SAME, True, call=lambda x, y, z: ([[[x, y], [z]]], {}), seen=lambda a, k: [a[0][0][0], a[0][0][1], a[0][1][0]], kinds=EX),
     F(np.select, 3, main(2), True, call=lambda x, y, d: ([[True, False], [x, y]], {"default": d}), seen=lambda a, k: list(a[1]) + [k["default"]], kinds=EX),
     F(np.clip, 3, SAME, True, seen=lambda a, k: list(a[:3]), kinds=EX), F(np.clip, 3, SAME, True, call=lambda x, y, z: ([x], {"min": y, "max": z}),
                                                                          seen=lambda a, k: list(a[:3]), kinds=EX, id="np.clip min max"),
     F(np.where, 2, SAME, True, call=lambda x, y: ([[True, False], x, y], {}), seen=lambda a, k: list(a[1:])),
     F(np.einsum, 2, PRODUCT, call=lambda x, y: (["i,i", x, y], {}), seen=lambda a, k: list(a[1:])),
     F(np.unwrap, 2, SAME, True, call=lambda x, p: ([x], {"period": p}), seen=lambda a, k: [a[0], k["period"]]),
     F(np.interp, 3, lambda fs: [fs[2]], [[0, 1]], kinds=EX),
     F(np.interp, 3, lambda fs: [fs[1]], [[1, 2]], call=lambda x, y, l: ([x, x, y], {"left": l}), seen=lambda a, k: [a[0], a[2], k["left"]], kinds=EX, id="np.interp left"),
     F(np.trapezoid, 2, PRODUCT, call=lambda y, x: ([y], {"x": x}), seen=lambda a, k: [a[0], k["x"]]),
     F(np.trapezoid, 2, PRODUCT, call=lambda y, x: ([y], {"dx": x}), seen=lambda a, k: [a[0], k["dx"]], id="np.trapezoid dx"),
     F(np.interp, 2, lambda fs: [None], True, call=lambda x, p: ([x, x, 1.0], {"period": p}), seen=lambda a, k: [a[0], k["period"]], id="np.interp period"),
     F(np.logspace, 1, ONE, call=lambda b: ([0, 1], {"base": b}), seen=lambda a, k: [k["base"]]),
     F(np.average, 1, ONE), F(np.average, 2, lambda fs: [fs[0]], [[]], call=lambda x, q: ([x], {"weights": q}), seen=lambda a, k: [a[0], k["weights"]], id="np.average weights"),
     F(np.average, 2, lambda fs: list(fs), [[]], call=lambda x, q: ([x], {"weights": q, "returned": True}), seen=lambda a, k: [a[0], k["weights"]], res="uu",
       id="np.average returned")]


def counted(k, n, density, weights, bins, limits):
    """A histogram function of n samples, with weights, edges and limits given as operands or not."""
    fn = {1: np.histogram, 2: np.histogram2d, 3: np.histogramdd}[k]
    # operands: the samples, then the edges and the limits of the first one, then the weights
    b = n if bins else None
    l = n + bool(bins) if limits else None
    w = n + bool(bins) + bool(limits) if weights else None
    total = n + bool(bins) + bool(limits) + bool(weights)

    def call(*x):
        kw = {"density": density} if density else {}
        first_b, first_l = x[b] if bins else 7, x[l] if limits else None
        if k == 1:
            a = [x[0]]
            kw.update({"bins": first_b} if bins else {}, **({"range": first_l} if limits else {}))
        else:
            a = list(x[:2]) if k == 2 else [list(x[:n])]
            if bins:
                kw["bins"] = [first_b] + [5] * (n - 1)
            if limits:
                kw["range"] = [first_l] + [None] * (n - 1)
        if weights:
            kw["weights"] = x[w]
        return a, kw

    def seen(a, kw):
        if k == 1:
            return [a[0]] + ([kw["bins"]] if bins else []) + ([kw["range"]] if limits else []) + ([kw["weights"]] if weights else [])
        xs = list(a[:2]) if k == 2 else list(a[0])
        return xs + ([kw["bins"][0]] if bins else []) + ([kw["range"][0]] if limits else []) + ([kw["weights"]] if weights else [])

    def law(fs):
        d = times(fs[:n]) if density else None
        cnt = over(fs[w], d) if weights and density else fs[w] if weights else over(None, d) if density else None
        edges = [f if f is not None or not (i == 0 and total - bool(weights) > n) or first(fs[n:total - bool(weights)]) is None else Maybe(first(fs[n:total - bool(weights)]))
                 for i, f in enumerate(fs[:n])]
        return [cnt] + edges
    same = [[0, x] for x in (b, l) if x is not None]
    groups, of = None, None
    if k != 1 and not density:
        groups = [[0] + [x for x in (b, l) if x is not None]] + [[i] for i in range(1, n)] + ([[w]] if weights else [])
        of = [n if weights else 0] + list(range(n))
    res = ("u" if density or weights else "p") + "u" * n
    return F(fn, total, law, same or [[]], call, seen, res, kinds=KINDS if total < 3 else EX, groups=groups, of=of, product=[i for i in range(total) if i not in (b, l)] if density else [],
             nested="list" if k == 3 else False,
             id=f"np.{fn.__name__}" + "".join(f" {t}" for t, v in (("density", density), ("weights", weights), ("bins", bins), ("range", limits)) if v))


HISTOGRAMS = [counted(k, 1 if k == 1 else 2, d, w, b, l) for k in (1, 2, 3) for d in (None, True) for w in (False, True)
              for b, l in ((False, False), (True, False), (False, True)) if k == 1 or not (w and (b or l))]
FUNCTIONS += HISTOGRAMS
FUNCTIONS += [F(np.histogram_bin_edges, 1, ONE)]


def function_job(k, with_out=False):
    f = FUNCTIONS[k] if isinstance(k, int) else next(x for x in FUNCTIONS if x.name == k)
    job = Job(f"{f.name}{' (out)' if with_out else ''} on arrays with a frame", budget_s=200, max_paths=20000)

    def body(job, I, c):
        w = setting(job, I, c)
        target, base = handled(f.fn)
        ks = f.kinds or KINDS
        ops = [Operand(w, ks[c.choose(len(ks))], f"x{i}", cls=objects().cosmo_array) for i in range(f.n)]
        if not any(o.cosmo for o in ops):
            return
        out = w.array(objects().cosmo_array, *STATES[c.choose(3)], w.alg.factor("factor of out"), "out") if with_out else None
        inner = Results(w, f.res, out, f.nested)
        for g in outside():
            I.models[g] = lambda *a, g=g, **kw: inner(g, a, kw)
        args, kw = f.call(*[o.obj for o in ops])
        if out is not None:
            kw["out"] = out
        r = attempt(lambda: I.call(target, args, kw))
        for o in ops:
            o.untouched()
        if isinstance(r, Raised):
            refused(c, f, ops)
            return
        if len(inner.calls) != 1:
            c.oblige(all(common_frame([ops[i] for i in g]) != ["raises"] for g in f.groups), "operands with and without a frame are not mixed")
            raise CannotAttach("use of unyt's implementation")
        g, a, k2 = inner.calls[0]
        if g is not base:
            raise CannotAttach("use of unyt's implementation")
        try:
            got = f.seen(a, k2)
        except (KeyError, IndexError, TypeError):
            raise CannotAttach("operands of unyt's implementation")
        accepted(c, w, f, ops, got, r, inner, out)
        if out is not None:
            c.oblige(k2.get("out") is out, "the output array itself is written to")
    return job.run(body)


class Results:
    """What unyt's (or numpy's) own function gives: values with units, without a frame."""

    def __init__(self, w, res, out=None, nested=False):
        self.w, self.res, self.out, self.calls, self.parts, self.nested = w, res, out, [], [], nested

    def __call__(self, g, a, k):
        self.calls.append((g, a, k))
        c = self.w.c
        if self.out is not None:
            view = self.out if c.choose(2) else bare(self.w, unyt_array, ("n",), self.out.attrs["units"])
            view.attrs["data"] = self.out.attrs["data"]
            self.parts = [view]
            return view
        if not self.parts:
            for r in self.res:
                if r == "p":
                    self.parts.append(token("plain result"))
                else:
                    cls = [unyt_array, unyt_quantity][c.choose(2)]
                    self.parts.append(bare(self.w, cls, () if cls is unyt_quantity else ("n",), token("units of the result")))
        if self.nested:
            return self.parts[0], list(self.parts[1:]) if self.nested == "list" else tuple(self.parts[1:])
        return self.parts[0] if len(self.parts) == 1 else tuple(self.parts)


def refused(c, f, ops):
    if any(common_frame([ops[i] for i in g]) == ["raises"] for g in f.groups):
        return
    if f.same:
        groups = [[ops[i] for i in g] for g in f.same]
        if any(o.cf is None for g in groups for o in g):
            return
        ok = land(True, True, *[same_factors(g) for g in groups])
        if f.product:
            ok = land(ok, same_scales([ops[i] for i in f.product]))
        c.oblige(lnot(ok), "operands of one scaling are not refused")
    else:
        c.oblige(lnot(same_scales(ops)), "operands at one scale factor are not refused")


def accepted(c, w, f, ops, got, r, inner, out=None):
    if len(got) != len(ops):
        raise CannotAttach("operands of unyt's implementation")
    where = []
    for g in f.groups:
        frames = common_frame([ops[i] for i in g])
        c.oblige(frames != ["raises"], "operands with and without a frame are not mixed")
        if frames == ["raises"]:
            return
        k = next((i for i in g if ops[i].cosmo), None)
        frame = None if k is None else got[k].attrs.get("comoving") if isinstance(got[k], SymObj) else "none"
        c.oblige(any(frame is x for x in frames), "the common frame; physical if an operand may not be made comoving")
        if not any(frame is x for x in frames):
            return
        where.append((frame, all(ops[i].vt for i in g)))
        for i in g:
            in_frame(c, ops[i], got[i], frame, ops[i].name)
    for g in f.same:
        c.oblige(close_factors([ops[i] for i in g]), "only operands of one scaling are combined")
    if f.product:
        c.oblige(same_scales([ops[i] for i in f.product]), "only operands at one scale factor are combined")
    want = f.law([o.f for o in ops])
    rs = list(flat(r)) if isinstance(r, tuple) else [r]
    c.oblige(len(rs) == len(f.res), "as many results as there are")
    if len(want) != len(rs) or len(f.res) != len(rs):
        raise CannotAttach("number of results")
    for y, m, t, x, k in zip(rs, inner.parts, f.res, want, f.of):
        if t == "p":
            c.oblige(y is m, "plain results are passed on")
            continue
        if isinstance(y, SymObj) and "data" in y.attrs:
            c.oblige(y.attrs["data"] is m.attrs["data"] and y.attrs["units"] is m.attrs["units"], "values and units are those that unyt gives")
        labelled(c, y, x, *where[k], unyt_array, "result", exact=not f.same)
    if out is not None:
        attributes(c, out, want[0], *where[0], "output array", exact=not f.same)


def flat(r):
    for x in r:
        if isinstance(x, (tuple, list)):
            yield from flat(x)
        else:
            yield x


# --- functions that write into their first argument ---------------------------------------------------------------------------------
INPLACE = {np.copyto: (lambda d, v: ([d, v], {}), 1), np.put: (lambda d, v: ([d, [0, 2], v], {}), 2), np.place: (lambda d, v: ([d, [True, False], v], {}), 2),
           np.putmask: (lambda d, v: ([d, [True, False], v], {}), 2), np.put_along_axis: (lambda d, v: ([d, [0], v, 0], {}), 2),
           np.fill_diagonal: (lambda d, v: ([d, v], {}), 1)}


def inplace_job(fn):
    """The values that are written are brought to the frame of the array that is written to, which keeps its frame."""
    name = fn if isinstance(fn, str) else fn.__name__
    job = Job(f"np.{name} into an array with a frame" if name != "__setitem__" else "assignment to elements of an array with a frame", budget_s=100)

    def body(job, I, c):
        w = setting(job, I, c)
        dst = Operand(w, range(len(STATES))[c.choose(len(STATES))], "target", cls=objects().cosmo_array)
        ks = KINDS
        v = Operand(w, ks[c.choose(len(ks))], "values", cls=objects().cosmo_array)
        calls = []
        if name == "__setitem__":
            job.super_models["__setitem__"] = lambda me: model(lambda i, x: calls.append((me, x)))
            r = attempt(lambda: I.call(I.getattr(dst.obj, "__setitem__"), [0, v.obj], {}))
        else:
            target, base = handled(fn)
            def write(g, a):
                if g is not base:
                    raise CannotAttach("use of unyt's implementation")
                calls.append((a[0], a[INPLACE[fn][1]]))
            for g in outside():
                I.models[g] = lambda *a, g=g, **kw: write(g, a)
            args, kw = INPLACE[fn][0](dst.obj, v.obj)
            r = attempt(lambda: I.call(target, args, kw))
        dst.untouched()
        v.untouched()
        frames = common_frame([dst, v])
        if isinstance(r, Raised):
            if frames == ["raises"]:
                return
            if v.cosmo and v.comoving is False and dst.comoving is True and v.vt is False:
                return  # these values must not be made comoving
            bare_too = any(o.cf is None for o in (dst, v))
            c.oblige(bare_too or lnot(same_factors([dst, v])), "values of one scaling are not refused")
            return
        if name != "__setitem__":
            c.oblige(frames != ["raises"], "values with and without a frame are not mixed")
        if frames == ["raises"]:
            return
        if len(calls) != 1:
            raise CannotAttach("use of unyt's implementation")
        c.oblige(calls[0][0] is dst.obj, "the array itself is written to")
        in_frame(c, v, calls[0][1], dst.comoving if v.cosmo and v.comoving is not None else v.comoving, "values")
        if name != "__setitem__" or dst.comoving is not v.comoving:
            if v.cosmo:
                c.oblige(close_factors([dst, v]), "only values of the scaling of the array are written to it")
    return job.run(body)


# --- functions whose result has the attributes of the first argument ----------------------------------------------------------------
PROPAGATED = [np.max, np.min, np.sum, np.mean, np.median, np.sort, np.partition]


def propagate_job(fn):
    """The result of numpy's own implementation (which is evaluated on the argument itself) is in the frame of the argument."""
    job = Job(f"np.{fn.__name__} of an array with a frame", budget_s=100)

    def body(job, I, c):
        w = setting(job, I, c)
        target, _ = handled(fn)
        x = Operand(w, KINDS[2 + c.choose(len(STATES))], "x", cls=objects().cosmo_array, known=not c.choose(2))
        made, calls = [], []

        def base(g, a, k):
            if g is not fn._implementation:
                raise CannotAttach("use of numpy's implementation")
            calls.append((a, k))
            cls = [objects().cosmo_array, objects().cosmo_quantity][c.choose(2)]  # numpy keeps the class
            shape = () if "quantity" in cls.__name__ else ("n",)
            y = bare(w, cls, shape, x.before["units"])
            if issubclass(cls, objects().cosmo_array) and fn in (np.max, np.min, np.sum):
                # the contract of the reductions of __array_ufunc__
                y.attrs.update(comoving=x.comoving, cosmo_factor=x.cf, valid_transform=x.vt)
            made.append(y)
            return y
        for g in outside() + [f._implementation for f in PROPAGATED]:
            I.models[g] = lambda *a, g=g, **kw: base(g, a, kw)
        r = attempt(lambda: I.call(target, [x.obj], [{}, {"axis": 0}][c.choose(2)]))
        x.untouched()
        if isinstance(r, Raised):
            c.oblige(False, "a result is given")
            return
        if len(calls) != 1:
            raise CannotAttach("use of numpy's implementation")
        in_frame(c, x, calls[0][0][0], x.comoving, "x")
        if isinstance(r, SymObj) and "data" in r.attrs:
            c.oblige(r.attrs["data"] is made[0].attrs["data"] and r.attrs["units"] is made[0].attrs["units"], "values and units are those that numpy gives")
        labelled(c, r, x.f, x.comoving, x.vt, "any", "result")
    return job.run(body)


def meshgrid_job():
    job = Job("np.meshgrid of arrays with a frame", budget_s=100)

    def body(job, I, c):
        w = setting(job, I, c)
        target, _ = handled(np.meshgrid)
        ops = [Operand(w, KINDS[1 + c.choose(1 + len(STATES))], f"x{i}", cls=objects().cosmo_array) for i in range(2)]
        if not any(o.cosmo for o in ops):
            return
        made = []

        def base(*a, **k):
            if len(a) != 2:
                raise CannotAttach("use of numpy's implementation")
            for o, p in zip(ops, a):
                in_frame(c, o, p, o.comoving, o.name)
            made.extend(bare(w, objects().cosmo_array if o.cosmo else unyt_array, ("n",), token("units")) for o in ops)
            return list(made) if c.choose(2) else tuple(made)
        I.models[np.meshgrid._implementation] = base
        r = attempt(lambda: I.call(target, [o.obj for o in ops], {}))
        for o in ops:
            o.untouched()
        if isinstance(r, Raised):
            c.oblige(False, "a result is given")
            return
        if len(made) != 2:
            raise CannotAttach("use of numpy's implementation")
        c.oblige(isinstance(r, (tuple, list)) and len(r) == 2, "one result for each array")
        for o, y, m in zip(ops, r, made):
            if not o.cosmo:
                continue
            c.oblige(isinstance(y, SymObj) and y.attrs["data"] is m.attrs["data"] and y.attrs["units"] is m.attrs["units"], "values and units are those that numpy gives")
            labelled(c, y, o.f, o.comoving, o.vt, "any", "result")
    return job.run(body)


def product_job(fn):
    """np.prod (over all or one axis) and np.linalg.det: a power of the scaling, the number of factors."""
    job = Job(f"np.{fn.__name__} of an array with a frame", budget_s=100)

    def body(job, I, c):
        w = setting(job, I, c)
        target, base = handled(fn)
        x = Operand(w, KINDS[2 + c.choose(len(STATES))], "x", cls=objects().cosmo_array)
        rows, columns = c.int("rows"), c.int("columns")
        c.assume(land(rows >= 1, columns >= 1))
        if fn is np.linalg.det:
            columns = rows
        x.obj.attrs[("getattr", "shape")] = lambda me: (rows, columns)
        x.obj.attrs[("getattr", "size")] = lambda me: rows * columns
        kw, n = {}, rows
        if fn is np.prod:
            ax = [None, 0][c.choose(2)]
            kw = {"axis": ax}
            n = rows * columns if ax is None else rows
        made, calls = [], []

        def impl(g, a, k):
            if g is not base:
                raise CannotAttach("use of unyt's implementation")
            calls.append((a, k))
            all_ = fn is np.linalg.det or kw["axis"] is None
            y = bare(w, unyt_quantity if all_ else unyt_array, () if all_ else ("n",), token("units"))
            y.attrs[("getattr", "size")] = lambda me: 1 if all_ else columns
            made.append(y)
            return y
        for g in outside():
            I.models[g] = lambda *a, g=g, **k: impl(g, a, k)
        r = attempt(lambda: I.call(target, [x.obj], kw))
        x.untouched()
        if isinstance(r, Raised):
            c.oblige(False, "a result is given")
            return
        if len(calls) != 1:
            raise CannotAttach("use of unyt's implementation")
        in_frame(c, x, calls[0][0][0], x.comoving, "x")
        c.oblige(isinstance(r, SymObj) and r.attrs["data"] is made[0].attrs["data"] and r.attrs["units"] is made[0].attrs["units"],
                 "values and units are those that unyt gives")
        labelled(c, r, None if x.f is None else power(x.f, n), x.comoving, x.vt, "any", "result")
    return job.run(body)
