"""C09 at run time: derived objects against plain numpy of the values, with all attributes checked."""
import copy
import pickle

import numpy as np
import unyt

from checks.x_c07 import full, sw
from vlib.execlib import Violation, case, check


def draw(rng, env, minshape=None):
    ca, cq, cf, a, err = sw()
    scale = float(rng.choice([1.0, 0.5, 0.1]))
    p = int(rng.integers(-3, 4))
    kind = int(rng.integers(0, 6))
    shape = minshape or [(), (1,), (4,), (3, 2), (2, 3, 2), (5,)][kind]
    vt = bool(rng.random() < 0.7)
    cm = [True, False][int(rng.integers(0, 2))] if vt else False
    if rng.random() < 0.1:
        cm, vt = None, False
    v = rng.uniform(-5, 5, shape)
    comp = [None, "DScale2", "FMantissa9"][int(rng.integers(0, 3))]
    kw = dict(cosmo_factor=cf(a ** p, scale), comoving=cm, valid_transform=vt, compression=comp)
    x = cq(float(v), "kpc", **kw) if shape == () else ca(v, "kpc", **kw)
    env.note(scale=scale, p=p, shape=list(shape), comoving=cm, valid=vt, compression=comp)
    return x, v


def index(rng, shape):
    n = len(shape)
    m = int(rng.integers(0, 8))
    if m == 0:
        return tuple(int(rng.integers(-s, s)) for s in shape)
    if m == 1 and n:
        return int(rng.integers(-shape[0], shape[0]))
    if m == 2:
        return slice(None, None, int(rng.choice([1, 2, -1])))
    if m == 3 and n:
        return rng.random(shape) < 0.5
    if m == 4 and n:
        return rng.integers(0, shape[0], int(rng.integers(0, 4)))
    if m == 5:
        return (Ellipsis, 0) if n else Ellipsis
    if m == 6:
        return (None,) if n else Ellipsis
    return tuple(slice(int(rng.integers(0, 2)), None) for _ in shape) if n else ()


def same_attrs(y, x, what, units="kpc"):
    ca, cq, cf, a, err = sw()
    check(isinstance(y, ca), f"{what}: {type(y).__name__}")
    check(isinstance(y, cq) == (y.shape == ()), f"{what}: {type(y).__name__} of shape {y.shape}")
    check(str(y.units) == str(unyt.Unit(units)), f"{what}: units {y.units}")
    check(str(y.cosmo_factor) == str(x.cosmo_factor), f"{what}: factor {y.cosmo_factor} instead of {x.cosmo_factor}")
    check(y.comoving is x.comoving, f"{what}: comoving {y.comoving} instead of {x.comoving}")
    check(y.valid_transform == x.valid_transform, f"{what}: valid_transform {y.valid_transform} instead of {x.valid_transform}")
    check(y.compression == x.compression, f"{what}: compression {y.compression} instead of {x.compression}")


@case(quick=300, thorough=6000)
def indexing(rng, env):
    x, v = draw(rng, env)
    before = full(x)
    if x.shape == ():
        i = [(), Ellipsis][int(rng.integers(0, 2))]
    else:
        i = index(rng, v.shape)
    env.note(index=str(i))
    y = x[i]
    w = v[i]
    check(np.array_equal(np.asarray(y), w), f"x[{i}] values")
    same_attrs(y, x, f"x[{i}] of shape {x.shape}")
    check(full(x) == before, "indexing changed the array")


OPS = {
    "copy": lambda x: x.copy(), "copy_copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)),
    "pickle2": lambda x: pickle.loads(pickle.dumps(x, protocol=2)),
    "np_copy": lambda x: np.copy(x, subok=True), "view": lambda x: x.view(), "reshape": lambda x: x.reshape(-1), "ravel": lambda x: x.ravel(),
    "flatten": lambda x: x.flatten(), "T": lambda x: x.T, "transpose": lambda x: x.transpose(), "squeeze": lambda x: x.squeeze(),
    "repeat": lambda x: x.repeat(2), "astype": lambda x: x.astype("f4"), "expand": lambda x: np.expand_dims(x, 0),
    "reshape_np": lambda x: np.reshape(x, (-1, 1)), "ravel_np": np.ravel, "squeeze_np": np.squeeze, "flip": lambda x: np.flip(x),
    "positive": lambda x: +x, "asanyarray": np.asanyarray, "take": lambda x: x.ravel().take([0]) if x.ndim else x.copy(),
    "take0": lambda x: x.take(0), "swapaxes": lambda x: x.swapaxes(0, -1) if x.ndim else x.copy(),
    "compress": lambda x: x.compress([True], axis=0) if x.ndim else x.copy(), "byteswap": lambda x: x.byteswap().byteswap(),
    "atleast_1d": np.atleast_1d,
    "diagonal": lambda x: x.diagonal() if x.ndim == 2 else x.copy(), "moveaxis": lambda x: np.moveaxis(x, 0, -1) if x.ndim else x.copy(),
    "reshape_scalar": lambda x: x.reshape(-1)[:1].reshape(()),
}
REF = {"byteswap": lambda x: x.copy(), "copy_copy": np.copy, "deepcopy": np.copy, "pickle": np.copy, "pickle2": np.copy}


@case(quick=len(OPS) * 12, thorough=len(OPS) * 120)
def derived_objects(rng, env):
    name = sorted(OPS)[env.k % len(OPS)]
    x, v = draw(rng, env)
    env.note(operation=name)
    before = full(x)
    y = OPS[name](x)
    w = REF.get(name, OPS[name])(np.asarray(v))
    check(np.shape(y) == np.shape(w), f"{name}: shape {np.shape(y)} instead of {np.shape(w)}")
    check(np.allclose(np.asarray(y), w, rtol=1e-6), f"{name}: values")
    same_attrs(y, x, f"{name} of shape {x.shape}")
    check(full(x) == before, f"{name} changed the original")


@case(quick=120, thorough=1500)
def iteration_and_units(rng, env):
    x, v = draw(rng, env)
    before = full(x)
    if x.ndim:
        k = 0
        for y, w in zip(x, v):
            check(np.array_equal(np.asarray(y), w), "iteration values")
            same_attrs(y, x, f"item {k} of an array of shape {x.shape}")
            k += 1
        check(k == len(v), "iteration length")
    for u, f in (("Mpc", 1e-3), ("kpc", 1.0)):
        for m in ("in_units", "to"):
            y = getattr(x, m)(u)
            check(np.allclose(np.asarray(y), v * f, rtol=1e-12), f"{m} values")
            same_attrs(y, x, m, u)
            if y.ndim:
                y[...] = y * 0
    for m in ("in_cgs", "in_mks", "in_base"):
        y = getattr(x, m)()
        check(np.allclose(np.asarray(y.to_value("kpc")), v, rtol=1e-12), f"{m} values")
        same_attrs(y, x, m, str(y.units))
        check(y.units.dimensions == x.units.dimensions, m)
    check(full(x) == before, "unit conversion changed the original")
    y = x.copy()
    y.convert_to_units("Mpc")
    same_attrs(y, x, "convert_to_units", "Mpc")
    check(np.allclose(np.asarray(y), v * 1e-3, rtol=1e-12), "convert_to_units values")
    check(full(x) == before, "convert_to_units of a copy changed the original")


COPIES = ["copy", "copy_copy", "deepcopy", "pickle", "flatten", "astype", "np_copy", "repeat"]


@case(quick=len(COPIES) * 8, thorough=len(COPIES) * 60)
def copies_are_independent(rng, env):
    name = COPIES[env.k % len(COPIES)]
    x, v = draw(rng, env, minshape=(4,) if name in ("repeat", "flatten") else None)
    env.note(operation=name)
    before = full(x)
    y = OPS[name](x)
    m = int(rng.integers(0, 4))
    if m == 0 and y.ndim:
        y[0] = y[0] * 3
    elif m == 1:
        y *= 2
    elif m == 2 and x.comoving is not None and x.valid_transform:
        y.convert_to_comoving() if not x.comoving else y.convert_to_physical()
    else:
        y.comoving, y.compression, y.valid_transform = False, "changed", False
        y.cosmo_factor = None
    check(full(x) == before, f"changing the result of {name} changed the original")


@case(quick=80, thorough=800)
def writing_through_a_view_is_shared(rng, env):
    """Views are views: writing into a slice writes into the array and nothing else."""
    x, v = draw(rng, env, minshape=(6,))
    i, j = sorted(rng.integers(0, 7, 2))
    w = v.copy()
    y = x[i:j]
    y *= 2
    w[i:j] *= 2
    env.note(i=int(i), j=int(j))
    if i == j:
        env.trivial()
    check(np.allclose(np.asarray(x), w), "slice assignment")
    same_attrs(x, x, "array")
    z = x.copy()
    z[i:j] = x[:j - i]
    check(np.array_equal(np.asarray(z)[i:j], np.asarray(x)[:j - i]), "setitem")
    same_attrs(z, x, "setitem")


@case(quick=60, thorough=500)
def constructed_from_other_packages(rng, env):
    ca, cq, cf, a, err = sw()
    import astropy.units as au
    v = rng.uniform(1, 2, 3)
    cm, vt = [(True, True), (False, True), (False, False)][int(rng.integers(0, 3))]
    f = cf(a ** 1, 0.5)
    env.note(values=v, comoving=cm, valid=vt)
    y = ca.from_astropy(v * au.kpc, comoving=cm, cosmo_factor=f, valid_transform=vt, compression="X")
    check(np.allclose(y.to_value("kpc"), v) and y.comoving is cm and y.valid_transform is vt and y.compression == "X" and y.cosmo_factor == f,
          f"from_astropy: comoving={y.comoving} valid_transform={y.valid_transform} compression={y.compression}")
    z = ca(v, "kpc", bypass_validation=True, scale_factor=0.5, scale_exponent=1, comoving=cm, valid_transform=vt)
    check(z.comoving is cm and z.valid_transform is vt and z.cosmo_factor == f, "bypass_validation")
