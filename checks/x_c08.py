"""C08 at run time: every function of the table, on mixed frames, against the same function of unyt arrays that were
converted to physical by hand."""
import warnings

import numpy as np
import unyt

from vlib.execlib import Violation, case, check

A = None


def sw():
    import swiftsimio as s
    from swiftsimio import objects
    return s.cosmo_array, s.cosmo_quantity, objects.cosmo_factor, objects.a


class Op:
    """One operand: physical value `phys` (unyt), scaling exponent p, frame, and the cosmo object built from them."""

    def __init__(self, vals, unit, p, cm, scale, vt=True, quantity=False, plain=False):
        ca, cq, cf, a = sw()
        self.p, self.cm, self.plain = p, cm, plain
        self.phys = unyt.unyt_array(np.array(vals, float), unit)
        v = np.array(vals, float)
        if plain:
            self.obj = v if v.ndim else float(v)
            self.p = 0
            self.phys = unyt.unyt_array(v, "dimensionless")
            return
        if cm:
            v = v / scale ** p
        self.obj = (cq(float(v), unit, cosmo_factor=cf(a ** p, scale), comoving=cm, valid_transform=vt) if quantity or v.ndim == 0
                    else ca(v, unit, cosmo_factor=cf(a ** p, scale), comoving=cm, valid_transform=vt))
        if vt is False:
            self.obj.valid_transform = False

    def state(self):
        o = self.obj
        if self.plain:
            return (np.array(o).tobytes(),)
        return (o.d.tobytes(), str(o.units), o.comoving, str(o.cosmo_factor), o.valid_transform, o.shape, type(o).__name__)


SAME, FREE = "same", "free"     # operands need a common scaling / may differ


def R(fn, nops=1, rule=None, mode=FREE, shape=(4,), units="same", pos=False, one_unit=False, id=None, small=False, ref=None):
    return dict(fn=fn, nops=nops, rule=rule, mode=mode, shape=shape, units=units, pos=pos, id=id, ref=ref)


p0 = lambda *p: p[0]
none = lambda *p: None
add = lambda *p: sum(p)
TABLE = {
    "add": R(lambda x, y: x + y, 2, p0, SAME),
    "subtract": R(lambda x, y: x - y, 2, p0, SAME),
    "multiply": R(lambda x, y: x * y, 2, add),
    "divide": R(lambda x, y: x / y, 2, lambda p, q: p - q),
    "power": R(lambda x: x ** 2, 1, lambda p: 2 * p),
    "power_half": R(lambda x: x ** 0.5, 1, lambda p: p / 2, pos=True),
    "power_neg": R(lambda x: np.power(x, -3), 1, lambda p: -3 * p),
    "sqrt": R(np.sqrt, 1, lambda p: p / 2, pos=True),
    "cbrt": R(np.cbrt, 1, lambda p: p / 3, pos=True),
    "square": R(np.square, 1, lambda p: 2 * p),
    "reciprocal": R(np.reciprocal, 1, lambda p: -p),
    "negative": R(np.negative, 1, p0),
    "positive": R(np.positive, 1, p0),
    "absolute": R(np.absolute, 1, p0),
    "fabs": R(np.fabs, 1, p0),
    "maximum": R(np.maximum, 2, p0, SAME),
    "minimum": R(np.minimum, 2, p0, SAME),
    "fmax": R(np.fmax, 2, p0, SAME),
    "fmin": R(np.fmin, 2, p0, SAME),
    "hypot": R(np.hypot, 2, p0, SAME),
    "remainder": R(lambda x, y: x % y, 2, p0, SAME, pos=True),
    "fmod": R(np.fmod, 2, p0, SAME, pos=True),
    "floor_divide": R(lambda x, y: x // y, 2, lambda p, q: p - q, "samefree", pos=True),
    "divmod": R(lambda x, y: np.divmod(x, y), 2, lambda p, q: (p - q, p), SAME, pos=True),
    "copysign": R(np.copysign, 2, p0, SAME),
    "arctan2": R(np.arctan2, 2, none, SAME),
    "greater": R(lambda x, y: x > y, 2, none, SAME),
    "less": R(lambda x, y: x < y, 2, none, SAME),
    "greater_equal": R(lambda x, y: x >= y, 2, none, SAME),
    "less_equal": R(lambda x, y: x <= y, 2, none, SAME),
    "isfinite": R(np.isfinite, 1, none),
    "isnan": R(np.isnan, 1, none),
    "signbit": R(np.signbit, 1, none),
    "matmul": R(lambda x, y: x @ y, 2, add, shape=(3, 3)),
    "matvec": R(np.matmul, 2, add, shape=[(3, 3), (3,)]),
    "sum": R(np.sum, 1, p0),
    "sum_axis": R(lambda x: np.sum(x, axis=0), 1, p0, shape=(3, 2)),
    "method_sum": R(lambda x: x.sum(), 1, p0),
    "method_mean": R(lambda x: x.mean(), 1, p0),
    "method_max": R(lambda x: x.max(), 1, p0),
    "method_min": R(lambda x: x.min(axis=0), 1, p0, shape=(3, 2)),
    "method_std": R(lambda x: x.std(), 1, p0),
    "method_prod": R(lambda x: x.prod(), 1, lambda p: 4 * p),
    "method_prod_axis": R(lambda x: x.prod(axis=1), 1, lambda p: 2 * p, shape=(3, 2)),
    "method_cumsum": R(lambda x: x.cumsum(), 1, p0),
    "method_dot": R(lambda x, y: x.dot(y), 2, add),
    "prod": R(np.prod, 1, lambda p: 4 * p),
    "prod_axis": R(lambda x: np.prod(x, axis=0), 1, lambda p: 3 * p, shape=(3, 2)),
    "mean": R(np.mean, 1, p0), "median": R(np.median, 1, p0), "max": R(np.max, 1, p0), "min": R(np.min, 1, p0),
    "std": R(np.std, 1, p0), "var": R(np.var, 1, lambda p: 2 * p), "ptp": R(np.ptp, 1, p0),
    "percentile": R(lambda x: np.percentile(x, 30), 1, p0), "quantile": R(lambda x: np.quantile(x, [0.2, 0.7]), 1, p0),
    "nanpercentile": R(lambda x: np.nanpercentile(x, 30), 1, p0), "nanquantile": R(lambda x: np.nanquantile(x, 0.3), 1, p0),
    "sort": R(np.sort, 1, p0), "diff": R(np.diff, 1, p0), "ediff1d": R(np.ediff1d, 1, p0), "cumsum": R(np.cumsum, 1, p0),
    "trace": R(np.trace, 1, p0, shape=(3, 3)), "triu": R(np.triu, 1, p0, shape=(3, 3)), "tril": R(np.tril, 1, p0, shape=(3, 3)),
    "det": R(np.linalg.det, 1, lambda p: 3 * p, shape=(3, 3)), "inv": R(np.linalg.inv, 1, lambda p: -p, shape=(3, 3)),
    "pinv": R(np.linalg.pinv, 1, lambda p: -p, shape=(3, 3)),
    "norm": R(np.linalg.norm, 1, p0), "norm_axis": R(lambda x: np.linalg.norm(x, axis=1), 1, p0, shape=(3, 2)),
    "dot": R(np.dot, 2, add), "vdot": R(np.vdot, 2, add), "inner": R(np.inner, 2, add), "outer": R(np.outer, 2, add),
    "kron": R(np.kron, 2, add), "cross": R(np.cross, 2, add, shape=(2, 3)), "tensordot": R(lambda x, y: np.tensordot(x, y, axes=1), 2, add, shape=(3, 3)),
    "convolve": R(np.convolve, 2, add), "correlate": R(np.correlate, 2, add), "linalg_outer": R(np.linalg.outer, 2, add),
    "einsum_dot": R(lambda x, y: np.einsum("i,i", x, y), 2, add), "einsum_mat": R(lambda x, y: np.einsum("ij,jk->ik", x, y), 2, add, shape=(3, 3)),
    "einsum_trace": R(lambda x: np.einsum("ii", x), 1, p0, shape=(3, 3)),
    "vecdot": R(np.vecdot, 2, add),
    "concatenate": R(lambda x, y, z: np.concatenate([x, y, z]), 3, p0, SAME),
    "vstack": R(lambda x, y: np.vstack([x, y]), 2, p0, SAME), "hstack": R(lambda x, y: np.hstack([x, y]), 2, p0, SAME),
    "dstack": R(lambda x, y: np.dstack([x, y]), 2, p0, SAME), "column_stack": R(lambda x, y: np.column_stack([x, y]), 2, p0, SAME),
    "stack": R(lambda x, y, z: np.stack([x, y, z], axis=1), 3, p0, SAME),
    "block": R(lambda x, y: np.block([[x, y]]), 2, p0, SAME),
    "append": R(lambda x, y: np.append(x, y), 2, p0, SAME),
    "intersect1d": R(np.intersect1d, 2, p0, SAME), "union1d": R(np.union1d, 2, p0, SAME), "setdiff1d": R(np.setdiff1d, 2, p0, SAME),
    "where": R(lambda x, y: np.where([True, False, True, False], x, y), 2, p0, SAME),
    "select": R(lambda x, y: np.select([[True, False, False, True], [False, True, True, False]], [x, y], default=x[0] * 0), 2, p0, SAME),
    "choose": R(lambda x, y: np.choose([0, 1, 1, 0], [x, y]), 2, p0, SAME),
    "insert": R(lambda x, y: np.insert(x, 1, y), 2, p0, SAME, shape=[(4,), ()]),
    "clip": R(lambda x, y, z: np.clip(x, y, z), 3, p0, SAME, shape=[(4,), (), ()]),
    "clip_kw": R(lambda x, y, z: np.clip(x, min=y, max=z), 3, p0, SAME, ref=np.clip, shape=[(4,), (), ()]),
    "linspace": R(lambda x, y: np.linspace(x, y, 5), 2, p0, SAME, shape=()),
    "geomspace": R(lambda x, y: np.geomspace(x, y, 5), 2, p0, SAME, shape=(), pos=True),
    "isclose": R(lambda x, y: np.isclose(x, y, atol=x[0] * 0), 2, none, SAME),
    "array_equal": R(np.array_equal, 2, none, SAME), "searchsorted": R(np.searchsorted, 2, none, SAME),
    "isin": R(np.isin, 2, none, SAME),
    "trapezoid": R(lambda y, x: np.trapezoid(y, x=x), 2, add),
    "trapezoid_dx": R(lambda y, x: np.trapezoid(y, dx=x), 2, add, shape=[(4,), ()]),
    "interp": R(lambda x, y, f: np.interp(x, np.sort(y), f), 3, lambda p, q, r: r, "xy"),
    "histogram": R(lambda x, b: np.histogram(x, bins=np.sort(b)), 2, lambda p, q: (None, p), SAME),
    "histogram_w": R(lambda x, b, w: np.histogram(x, bins=np.sort(b), weights=w), 3, lambda p, q, r: (r, p), "xy", shape=[(6,), (4,), (6,)]),
    "histogram_dens": R(lambda x: np.histogram(x, bins=3, density=True), 1, lambda p: (-p, p), shape=(6,)),
    "histogram_bin_edges": R(lambda x: np.histogram_bin_edges(x, bins=3), 1, p0),
    "histogram_bin_edges_arr": R(lambda x, b: np.histogram_bin_edges(x, bins=np.sort(b)), 2, p0, SAME),
    "histogram2d": R(lambda x, y: np.histogram2d(x, y, bins=3), 2, lambda p, q: (None, p, q)),
    "histogram2d_w": R(lambda x, y, w: np.histogram2d(x, y, bins=3, weights=w), 3, lambda p, q, r: (r, p, q)),
    "histogram2d_dens": R(lambda x, y: np.histogram2d(x, y, bins=3, density=True), 2, lambda p, q: (-p - q, p, q)),
    "histogramdd_dens": R(lambda x, y: (lambda r: (r[0],) + tuple(r[1]))(np.histogramdd([x, y], bins=3, density=True)), 2,
                          lambda p, q: (-p - q, p, q)),
    "histogramdd_w": R(lambda x, y, w: (lambda r: (r[0],) + tuple(r[1]))(np.histogramdd([x, y], bins=3, weights=w)), 3,
                       lambda p, q, r: (r, p, q)),
    "average": R(np.average, 1, p0), "average_w": R(lambda x, w: np.average(x, weights=w), 2, p0, pos=True),
    "average_ret": R(lambda x, w: np.average(x, weights=w, returned=True), 2, lambda p, q: (p, q), pos=True),
    "solve": R(np.linalg.solve, 2, lambda p, q: q - p, shape=[(3, 3), (3,)]),
    "eigvalsh": R(lambda x: np.linalg.eigvalsh(x + x.T), 1, p0, shape=(3, 3)),
    "svd_values": R(lambda x: np.linalg.svd(x, compute_uv=False), 1, p0, shape=(3, 3)),
    "fftshift": R(np.fft.fftshift, 1, p0),
    **{f.__name__: R(f, 1, p0) for f in (np.fft.fft, np.fft.ifft, np.fft.rfft, np.fft.irfft, np.fft.hfft, np.fft.ihfft)},
    **{f.__name__: R(f, 1, p0, shape=(3, 3)) for f in (np.fft.fft2, np.fft.ifft2, np.fft.fftn, np.fft.ifftn, np.fft.rfft2, np.fft.irfft2,
                                                       np.fft.rfftn, np.fft.irfftn)},
    "around": R(lambda x: np.around(x, 12), 1, p0), "take": R(lambda x: np.take(x, [1, 0]), 1, p0),
    "pad": R(lambda x: np.pad(x, 1, mode="edge"), 1, p0), "roll": R(lambda x: np.roll(x, 1), 1, p0),
    "flip": R(np.flip, 1, p0), "tile": R(lambda x: np.tile(x, 2), 1, p0), "repeat": R(lambda x: np.repeat(x, 2), 1, p0),
    "ufunc_outer": R(np.multiply.outer, 2, add), "add_reduce": R(np.add.reduce, 1, p0), "maximum_reduce": R(np.maximum.reduce, 1, p0),
    "add_accumulate": R(np.add.accumulate, 1, p0),
    "meshgrid": R(lambda x, y: np.meshgrid(x, y), 2, lambda p, q: (p, q)),
    "copyto": R(None, 2, p0, SAME), "put": R(None, 2, p0, SAME), "place": R(None, 2, p0, SAME), "putmask": R(None, 2, p0, SAME),
    "put_along_axis": R(None, 2, p0, SAME), "fill_diagonal": R(None, 2, p0, SAME, shape=[(3, 3), ()]),
}


def inplace(name, x, y):
    x = x.copy()
    if name == "copyto":
        np.copyto(x, y)
    elif name == "put":
        np.put(x, [0, 2], y[:2])
    elif name == "place":
        np.place(x, np.array([True, False, True, True]), y[:3])
    elif name == "putmask":
        np.putmask(x, np.array([True, False, True, True]), y)
    elif name == "put_along_axis":
        np.put_along_axis(x, np.array([2, 0]), y[:2], 0)
    elif name == "fill_diagonal":
        np.fill_diagonal(x, y)
    return x


def shapes(t):
    return t["shape"] if isinstance(t["shape"], list) else [t["shape"]] * t["nops"]


def draw(rng, t, scale, mismatch=None):
    base = 1.0
    ops = []
    ps = [float(x) for x in rng.choice([-3, -2, -1, 1, 2, 3], t["nops"], replace=True)]
    if t["mode"] in (SAME, "samefree"):
        ps = [ps[0]] * t["nops"]
    elif t["mode"] == "xy":
        ps[1] = ps[0]
    scs = [scale] * t["nops"]
    if mismatch == "expr":
        i = 1 if t["mode"] == "xy" else int(rng.integers(1, t["nops"]))
        ps[i] += float(rng.choice([1, -1, 2]))
    elif mismatch == "scale":
        i = 1 if t["mode"] == "xy" else int(rng.integers(1, t["nops"]))
        scs[i] = scale * 0.5
    cms = rng.random(t["nops"]) < 0.5
    unit = str(rng.choice(["Mpc", "kpc", "1e10*Msun", "km/s"])) if t["units"] == "same" else "Mpc"
    for i, s in enumerate(shapes(t)):
        v = rng.uniform(0.5, 4, s) if t["pos"] or rng.random() < 0.5 else rng.uniform(-4, 4, s)
        ops.append(Op(v, unyt.Unit(unit, registry=None) if "*" not in unit else "Msun", ps[i], bool(cms[i]), scs[i]))
    return ops


def phys_of(res):
    """Physical value of a result (unyt or plain)."""
    if hasattr(res, "comoving"):
        f = 1.0
        if res.comoving and res.cosmo_factor is not None and res.cosmo_factor.a_factor is not None:
            f = res.cosmo_factor.a_factor
        return unyt.unyt_array(np.array(res.d) * f, res.units)
    if isinstance(res, unyt.unyt_array):
        return unyt.unyt_array(np.array(res.d), res.units)
    return np.asarray(res)


def base(x):
    if isinstance(x, unyt.unyt_array):
        return np.asarray(x.in_base("cgs").d), x.in_base("cgs").units
    return np.asarray(x), unyt.dimensionless


def close(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype == bool or x.dtype.kind in "iu":
        return np.array_equal(x, y)
    m = np.max(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 0
    return np.allclose(x, y, rtol=1e-7, atol=1e-9 * m, equal_nan=True)


def check_result(res, want, exp, scale, name):
    ca, cq, cf, a = sw()
    if isinstance(exp, tuple):
        check(isinstance(res, (tuple, list)) and len(res) == len(exp), f"{name}: {type(res).__name__} instead of {len(exp)} results")
        for i, (r, w, e) in enumerate(zip(res, want, exp)):
            check_result(r, w, e, scale, f"{name}[{i}]")
        return
    gv, gu = base(phys_of(res))
    wv, wu = base(want)
    check(gu.dimensions == wu.dimensions, f"{name}: dimensions {gu} instead of {wu}")
    check(close(gv, wv), f"{name}: physical value {gv.tolist()} instead of {wv.tolist()} "
                         f"(comoving={getattr(res, 'comoving', None)}, factor={getattr(res, 'cosmo_factor', None)})")
    c = getattr(res, "cosmo_factor", None)
    if exp is None:
        check(c is None or c.a_factor in (None, 1.0) or wv.dtype.kind == "c", f"{name}: carries the scaling {c}")
        return
    check(isinstance(res, ca), f"{name}: result is {type(res).__name__} and has lost its scaling")
    check(isinstance(res, cq) == (res.shape == ()), f"{name}: {type(res).__name__} of shape {res.shape}")
    check(c is not None and c.expr is not None, f"{name}: scaling is {c} instead of a**{exp}")
    check(abs(c.a_factor / scale ** exp - 1) < 1e-9 and c.scale_factor == scale, f"{name}: scaling is {c} instead of a**{exp}")
    check(res.comoving is not None, f"{name}: frame not set")


def run(name, t, ops, scale):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        xs = [o.obj for o in ops]
        res = inplace(name, *xs) if t["fn"] is None else t["fn"](*xs)
    return res


def one(rng, env, name, scale=None):
    t = TABLE[name]
    scale = scale or float(rng.choice([0.1, 0.5, 0.25, 0.8, 0.01]))
    ops = draw(rng, t, scale)
    env.note(function=name, scale=scale, frames=[o.cm for o in ops], exponents=[o.p for o in ops], values=[o.phys.d for o in ops])
    if len({o.cm for o in ops}) < 2 and len(ops) > 1:
        env.trivial()
    before = [o.state() for o in ops]
    res = run(name, t, ops, scale)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ph = [unyt.unyt_quantity(o.phys.d, o.phys.units) if o.phys.shape == () else o.phys for o in ops]
        if t["ref"]:
            want = t["ref"](*ph)
        elif t["fn"] is None:
            want = inplace(name, *ph)
        else:
            try:
                want = t["fn"](*ph)
            except Exception:       # not supported by unyt either
                want = t["fn"](*[p.d for p in ph])
    check([o.state() for o in ops] == before, f"{name}: an input was modified")
    if name == "array_equal" or name in ("isin",):
        pass
    check_result(res, want, t["rule"](*[o.p for o in ops]), scale, name)


NAMES = sorted(TABLE)


@case(quick=len(NAMES) * 5, thorough=len(NAMES) * 60)
def functions_on_mixed_frames(rng, env):
    k = env.k
    one(rng, env, NAMES[k % len(NAMES)])


MULTI = [n for n in NAMES if TABLE[n]["mode"] not in (FREE, "samefree") and TABLE[n]["nops"] > 1]


@case(quick=len(MULTI) * 4, thorough=len(MULTI) * 40)
def different_scalings_raise(rng, env):
    name = MULTI[env.k % len(MULTI)]
    t = TABLE[name]
    kind = ["expr", "scale"][(env.k // len(MULTI)) % 2]
    scale = float(rng.choice([0.1, 0.5, 0.25, 0.01]))
    ops = draw(rng, t, scale, kind)
    env.note(function=name, kind=kind, scale=scale, frames=[o.cm for o in ops], exponents=[o.p for o in ops], values=[o.phys.d for o in ops])
    before = [o.state() for o in ops]
    try:
        res = run(name, t, ops, scale)
    except Exception:
        check([o.state() for o in ops] == before, f"{name}: raised, but an input was modified")
        return
    raise Violation(f"{name}: operands with different scalings ({[str(o.obj.cosmo_factor) for o in ops]}) gave {res!r}")


UF = ["add", "subtract", "multiply", "divide", "maximum", "minimum", "hypot", "greater", "less", "concatenate", "dot", "linspace", "matmul",
      "fmax", "remainder", "where", "arctan2", "outer", "isclose", "stack", "einsum_dot", "clip", "average_w", "interp"]


@case(quick=len(UF) * 6, thorough=len(UF) * 60)
def restricted_operand_makes_result_physical(rng, env):
    """One operand may not be made comoving: the mixed result is physical, right, and may not be made comoving either."""
    name = UF[env.k % len(UF)]
    t = TABLE[name]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    ops = draw(rng, t, scale)
    i = int(rng.integers(0, len(ops)))
    for j, o in enumerate(ops):
        cm = False if j == i else bool(rng.random() < 0.7)
        ops[j] = Op(o.phys.d, o.phys.units, o.p, cm, scale, vt=j != i)
    env.note(function=name, scale=scale, frames=[o.cm for o in ops], restricted=i, exponents=[o.p for o in ops], values=[o.phys.d for o in ops])
    before = [o.state() for o in ops]
    res = run(name, t, ops, scale)
    check([o.state() for o in ops] == before, f"{name}: an input was modified")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = (t["ref"] or t["fn"])(*[unyt.unyt_quantity(o.phys.d, o.phys.units) if o.phys.shape == () else o.phys for o in ops])
    exp = t["rule"](*[o.p for o in ops])
    check_result(res, want, exp, scale, name)
    if exp is not None and not isinstance(exp, tuple):
        check(res.comoving is False, f"{name}: an operand that may not be made comoving gave a result with comoving={res.comoving}")
        check(res.valid_transform is False, f"{name}: the result of a restricted operand is unrestricted")


BIN = ["add", "subtract", "multiply", "divide", "maximum", "hypot"]


@case(quick=120, thorough=1500)
def operators_with_mixed_units_and_outputs(rng, env):
    ca, cq, cf, a = sw()
    name = BIN[env.k % len(BIN)]
    fn = {"add": np.add, "subtract": np.subtract, "multiply": np.multiply, "divide": np.divide, "maximum": np.maximum, "hypot": np.hypot}[name]
    mode = ["plain", "out", "inplace", "reflected", "unyt", "number"][(env.k // len(BIN)) % 6]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    q = p if name not in ("multiply", "divide") else float(rng.choice([-1, 1, 3]))
    cms = [bool(rng.random() < 0.5), bool(rng.random() < 0.5)]
    us = [str(u) for u in rng.choice(["kpc", "Mpc", "cm"], 2)]
    x = Op(rng.uniform(0.5, 4, 4), us[0], p, cms[0], scale)
    y = Op(rng.uniform(0.5, 4, 4), us[1], q, cms[1], scale)
    env.note(function=name, mode=mode, scale=scale, frames=cms, exponents=[p, q], units=us, values=[x.phys.d, y.phys.d])
    exp = {"multiply": p + q, "divide": p - q}.get(name, p)
    sx, sy = x.state(), y.state()
    want = fn(x.phys, y.phys)
    if mode == "out":
        out = ca(np.zeros(4), "dimensionless", comoving=False, cosmo_factor=cf(a ** 0, scale))
        res = fn(x.obj, y.obj, out=out)
        check_result(out, want, exp, scale, name + " (out)")
    elif mode == "inplace":
        z = x.obj.copy()
        if name == "add":
            z += y.obj
        elif name == "subtract":
            z -= y.obj
        elif name == "multiply":
            z *= y.obj
        elif name == "divide":
            z /= y.obj
        else:
            z = fn(z, y.obj)
        res = z
    elif mode == "reflected":
        if name not in ("multiply", "divide"):
            env.trivial()
            return
        res = 3.0 * x.obj if name == "multiply" else 3.0 / x.obj
        want = 3.0 * x.phys if name == "multiply" else 3.0 / x.phys
        exp = p if name == "multiply" else -p
    elif mode == "unyt":
        if name not in ("multiply", "divide"):
            env.trivial()
            return
        other = unyt.unyt_array(y.phys.d, y.phys.units)
        left = rng.random() < 0.5
        res = fn(other, x.obj) if left else fn(x.obj, other)
        want = fn(other, x.phys) if left else fn(x.phys, other)
        exp = (-p if left and name == "divide" else p)
    elif mode == "number":
        if name not in ("multiply", "divide"):
            env.trivial()
            return
        arr = rng.uniform(1, 2, 4)
        res = x.obj * arr if name == "multiply" else x.obj / arr
        want = x.phys * arr if name == "multiply" else x.phys / arr
        exp = p
    else:
        res = fn(x.obj, y.obj)
    check(x.state() == sx and y.state() == sy, f"{name} ({mode}): an input was modified")
    check_result(res, want, exp, scale, f"{name} ({mode})")


@case(quick=80, thorough=800)
def arrays_built_from_quantities(rng, env):
    ca, cq, cf, a = sw()
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    n = int(rng.integers(1, 5))
    want_cm = [None, True, False][int(rng.integers(0, 3))]
    cms = [bool(c) for c in rng.random(n) < 0.5]
    if rng.random() < 0.4:
        cms = [cms[0]] * n
    phys = rng.uniform(1, 5, n)
    qs = [cq(v / scale ** p if c else v, "kpc", cosmo_factor=cf(a ** p, scale), comoving=c) for v, c in zip(phys, cms)]
    env.note(scale=scale, p=p, frames=cms, requested=want_cm, values=phys)
    res = ca(qs, comoving=want_cm)
    want = unyt.unyt_array(phys, "kpc")
    check(want_cm is None or res.comoving is want_cm, f"comoving={res.comoving} instead of {want_cm}")
    check_result(res, want, p, scale, f"cosmo_array of {cms} with comoving={want_cm}")
    # the constructor applied to an array gives the array in the frame asked for and does not touch it
    x = ca(phys / scale ** p if cms[0] else phys, "kpc", cosmo_factor=cf(a ** p, scale), comoving=cms[0])
    before = (x.d.tobytes(), x.comoving)
    y = ca(x, comoving=want_cm)
    check((x.d.tobytes(), x.comoving) == before, f"cosmo_array(x, comoving={want_cm}) modified x (comoving={cms[0]})")
    check_result(y, want, p, scale, f"cosmo_array(array with comoving={cms[0]}, comoving={want_cm})")


# --- operands other than the main ones: output arrays, initial values, assigned values, limits, fill values ---------------------------
# fn(x, o) writes into the output array o of shape `out`; `x` has shape `shape`, exponent of the result from rule(p)
OUTS = {
    "clip": (lambda x, o: np.clip(x, x[0], x[1], out=o), (4,), (4,), p0), "clip_pos": (lambda x, o: np.clip(x, x[0], x[1], o), (4,), (4,), p0),
    "around": (lambda x, o: np.around(x, 12, out=o), (4,), (4,), p0), "around_pos": (lambda x, o: np.around(x, 12, o), (4,), (4,), p0),
    "take": (lambda x, o: np.take(x, [1, 0], out=o), (4,), (2,), p0), "cumsum": (lambda x, o: np.cumsum(x, out=o), (4,), (4,), p0),
    "dot": (lambda x, o: np.dot(np.eye(3), x, out=o), (3,), (3,), p0), "dot_pos": (lambda x, o: np.dot(x, x.T, o), (3, 3), (3, 3), lambda p: 2 * p),
    "outer": (lambda x, o: np.outer(x, x, out=o), (3,), (3, 3), lambda p: 2 * p),
    "einsum": (lambda x, o: np.einsum("ii->i", x, out=o), (3, 3), (3,), p0),
    "concatenate": (lambda x, o: np.concatenate([x[:1], x[1:]], out=o), (4,), (4,), p0),
    "stack": (lambda x, o: np.stack([x[0], x[1]], out=o), (2, 3), (2, 3), p0),
    "choose": (lambda x, o: np.choose([0, 1, 0], [x, x * 2], out=o), (3,), (3,), p0),
    "sum": (lambda x, o: np.sum(x, axis=0, out=o), (2, 3), (3,), p0), "max": (lambda x, o: np.max(x, axis=0, out=o), (2, 3), (3,), p0),
    "mean": (lambda x, o: np.mean(x, axis=0, out=o), (2, 3), (3,), p0), "median": (lambda x, o: np.median(x, axis=0, out=o), (2, 3), (3,), p0),
    "add": (lambda x, o: np.add(x, x, out=o), (4,), (4,), p0), "multiply": (lambda x, o: np.multiply(x, x, out=o), (4,), (4,), lambda p: 2 * p),
    "sqrt": (lambda x, o: np.sqrt(x, out=o), (4,), (4,), lambda p: p / 2),
}


@case(quick=len(OUTS) * 4, thorough=len(OUTS) * 30)
def output_arrays_in_any_frame(rng, env):
    ca, cq, cf, a = sw()
    name = sorted(OUTS)[env.k % len(OUTS)]
    fn, shape, oshape, rule = OUTS[name]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    # every combination of the frames of the array and of the output
    cx, co = [(True, False), (False, True), (True, True), (False, False)][(env.k // len(OUTS)) % 4]
    x = Op(rng.uniform(0.5, 4, shape), "kpc", p, cx, scale)
    o = ca(np.full(oshape, -7.0), "kpc", cosmo_factor=cf(a ** rule(p), scale), comoving=co)
    env.note(function=name, scale=scale, p=p, frame=cx, frame_out=co, values=x.phys.d)
    before = x.state()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fn(x.obj, o)
        want = fn(x.phys, None)
    check(x.state() == before, f"{name}: the input was modified")
    check_result(res, want, rule(p), scale, f"{name} (result)")
    check_result(o, want, rule(p), scale, f"{name} (out)")


INIT = {"sum": np.sum, "max": np.max, "min": np.min, "add.reduce": np.add.reduce, "x.sum": lambda x, initial: x.sum(initial=initial),
        "x.max": lambda x, initial: x.max(initial=initial), "x.min": lambda x, initial: x.min(initial=initial),
        "diff_prepend": lambda x, initial: np.diff(x, prepend=initial), "diff_append": lambda x, initial: np.diff(x, append=initial),
        "ediff1d": lambda x, initial: np.ediff1d(x, to_begin=initial), "ediff1d_pos": lambda x, initial: np.ediff1d(x, initial),
        "pad": lambda x, initial: np.pad(x, 1, mode="constant", constant_values=initial),
        "interp_left": lambda x, initial: np.interp(x * 3 - x[0] * 2, np.sort(x), x, left=initial),
        "interp_right": lambda x, initial: np.interp(x * 3, np.sort(x), x, right=initial),
        "select": lambda x, initial: np.select([x > x[0]], [x], default=initial)}
SETS = {"setitem": lambda x, q: x.__setitem__(1, q), "slice": lambda x, q: x.__setitem__(slice(1, 3), q),
        "mask": lambda x, q: x.__setitem__(np.array([True, False, True, True]), q),
        "iadd_item": lambda x, q: x.__setitem__(2, x[2] + q), "iadd_slice": lambda x, q: x.__setitem__(slice(0, 2), x[0:2] + q)}
AUX = {**{n: ("value", f) for n, f in INIT.items()}, **{n: ("set", f) for n, f in SETS.items()}}


@case(quick=len(AUX) * 4, thorough=len(AUX) * 30)
def auxiliary_operands_in_any_frame(rng, env):
    name = sorted(AUX)[env.k % len(AUX)]
    kind, fn = AUX[name]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    cx, cy = [(True, False), (False, True), (True, True), (False, False)][(env.k // len(AUX)) % 4]
    x = Op(rng.uniform(0.5, 4, 4), "kpc", p, cx, scale)
    q = Op(rng.uniform(2, 6), "kpc", p, cy, scale)
    env.note(function=name, scale=scale, p=p, frames=[cx, cy], values=[x.phys.d, q.phys.d])
    before = [x.state(), q.state()]
    phys, qp = x.phys.copy(), unyt.unyt_quantity(q.phys.d, q.phys.units)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "set":
            res, want = x.obj.copy(), phys
            fn(res, q.obj)
            fn(want, qp)
        else:
            res, want = fn(x.obj, initial=q.obj), fn(phys, initial=qp)
    check([x.state(), q.state()] == before, f"{name}: an input was modified")
    check_result(res, want, p, scale, name)


STRICT = ["sum", "max", "min", "x.sum", "diff_prepend", "diff_append", "ediff1d", "ediff1d_pos", "pad", "interp_left", "interp_right", "select"]


@case(quick=2 * len(STRICT) + 12, thorough=10 * len(STRICT))
def auxiliary_operands_of_another_scaling_raise(rng, env):
    ca, cq, cf, a = sw()
    more = {"isclose_atol": lambda x, initial: np.isclose(x, x, rtol=0, atol=initial),
            "isclose_pos": lambda x, initial: np.isclose(x, x, 0.0, initial), "allclose_atol": lambda x, initial: np.allclose(x, x, rtol=0, atol=initial),
            "histogram_range": lambda x, initial: np.histogram(x, range=(initial, initial * 2)),
            "edges_range": lambda x, initial: np.histogram_bin_edges(x, range=(initial, initial * 2)),
            "digitize": lambda x, initial: np.digitize(x, ca([initial, initial * 2]))}
    names = STRICT + sorted(more)
    name = names[env.k % len(names)]
    fn = more.get(name) or INIT[name]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    cx, cy = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    x = Op(rng.uniform(0.5, 4, 4), "kpc", p, cx, scale)
    q = Op(rng.uniform(2, 6), "kpc", p + float(rng.choice([1, -0.5, 2])), cy, scale)
    env.note(function=name, scale=scale, exponents=[x.p, q.p], frames=[cx, cy], values=[x.phys.d, q.phys.d])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn(x.obj, initial=q.obj)
    except Exception:
        return
    raise Violation(f"{name}: {x.obj.cosmo_factor} and {q.obj.cosmo_factor} combined to {res!r}")


@case(quick=40, thorough=400)
def limits_and_edges_in_any_frame(rng, env):
    ca, cq, cf, a = sw()
    name = ["range", "edges_range", "digitize", "svd", "isclose"][env.k % 5]
    scale = float(rng.choice([0.1, 0.5, 0.25]))
    p = float(rng.choice([-2, -1, 1, 2]))
    cms = [bool(c) for c in rng.random(2) < 0.5]
    env.note(function=name, scale=scale, p=p, frames=cms)
    if name == "svd":
        x = Op(rng.uniform(0.5, 4, (3, 3)), "kpc", p, cms[0], scale)
        u, s, vh = np.linalg.svd(x.obj)
        wu, ws, wv = np.linalg.svd(x.phys)
        check_result(s, unyt.unyt_array(np.linalg.svd(x.phys.d, compute_uv=False), "kpc"), p, scale, "svd")
        check(getattr(u, "cosmo_factor", None) is None and getattr(vh, "cosmo_factor", None) is None, "svd: u or vh carries a scaling")
        check(close(np.asarray(u) * np.asarray(s) @ np.asarray(vh), np.asarray(x.obj.d)), "svd: u s vh is not the matrix")
        return
    x = Op(rng.uniform(0.5, 4, 12), "kpc", p, cms[0], scale)
    lo, hi = Op(rng.uniform(0.2, 1), "kpc", p, cms[1], scale), Op(rng.uniform(2, 3), "kpc", p, cms[1], scale)
    plo, phi = unyt.unyt_quantity(lo.phys.d, "kpc"), unyt.unyt_quantity(hi.phys.d, "kpc")
    if name == "range":
        n, e = np.histogram(x.obj, bins=4, range=(lo.obj, hi.obj))
        wn, we = np.histogram(x.phys.d, bins=4, range=(float(plo.d), float(phi.d)))
        check(np.array_equal(np.asarray(n), wn), f"histogram counts {n} instead of {wn}")
        check_result(e, unyt.unyt_array(we, "kpc"), p, scale, "histogram edges")
    elif name == "edges_range":
        e = np.histogram_bin_edges(x.obj, bins=4, range=(lo.obj, hi.obj))
        check_result(e, unyt.unyt_array(np.linspace(float(plo.d), float(phi.d), 5), "kpc"), p, scale, "histogram_bin_edges")
    elif name == "digitize":
        b = Op([float(lo.phys.d), float(hi.phys.d)], "kpc", p, cms[1], scale)
        got, want = np.digitize(x.obj, b.obj), np.digitize(x.phys.d, b.phys.d)
        check(np.array_equal(np.asarray(got), want), f"digitize {got} instead of {want}")
    else:
        y = Op(x.phys.d * rng.uniform(0.9, 1.1, 12), "kpc", p, cms[1], scale)
        t = Op(rng.uniform(0.01, 0.3), "kpc", p, cms[0], scale)
        got = np.isclose(x.obj, y.obj, rtol=0, atol=t.obj)
        want = np.isclose(x.phys.d, y.phys.d, rtol=0, atol=float(t.phys.d))
        check(np.array_equal(np.asarray(got), want), f"isclose {got} instead of {want}")
