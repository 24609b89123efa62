"""Contracts of the methods that derive an array from an array (C09)."""
import numpy as np
from unyt import unyt_array, unyt_quantity

from checks.cosmo import Raised, attempt, den, model, objects
from checks.frames import FLAGS, STATES, World, state, unchanged
from pyvc.arrays import SArr
from pyvc.interp import SymObj
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, compare, land

# methods whose unyt original gives an array of the kind of self / of any kind and shape
SAME_KIND = ("astype", "in_units", "byteswap", "swapaxes", "transpose", "__copy__", "copy", "__deepcopy__", "in_cgs", "in_base", "compress", "diagonal")
ANY_KIND = ("flatten", "ravel", "repeat", "take", "reshape", "__getitem__", "squeeze")
ATTRS = ("comoving", "cosmo_factor", "valid_transform", "compression")


class Token:
    pass


def token(name):
    return SymObj(Token, {}, name=name)


def start(job, I, c):
    w = World(job, I, c)
    com, vt = STATES[c.choose(len(STATES))]
    cls = [objects().cosmo_array, objects().cosmo_quantity][c.choose(2)]
    x = w.array(cls, com, vt, w.alg.factor("factor"))
    if cls is objects().cosmo_quantity:
        x.attrs["data"] = SArr((), lambda: c.real("value"), "r", "x")
    return w, x


def bare(w, cls, shape, units):
    """An array as unyt makes it: with units, and with no or other frame attributes."""
    c = w.c
    n = c.int("n_result")
    c.assume(n >= 0)
    f = c.func("result", "i", "r")
    data = SArr((), lambda: c.real("result"), "r", "result") if shape == () else SArr((n,), lambda i: SV(f(i.t if isinstance(i, SV) else i)), "r", "result")
    if issubclass(cls, objects().cosmo_array):
        return w.make(cls, data, units, None if c.choose(2) else True, token("other factor"), token("other flag"), token("other compression"), "result")
    o = w.make(cls, data, units, None, None, None, None, "result")
    for k in ATTRS:
        del o.attrs[k]
    return o


def kept(c, y, x0, units, what):
    if not isinstance(y, SymObj) or not issubclass(y.cls, objects().cosmo_array):
        c.oblige(False, f"{what}: a cosmology-aware array is given")
        return
    for k in ATTRS:
        c.oblige(y.attrs.get(k, "missing") is x0[k] or (k == "comoving" and y.attrs.get(k, "missing") == x0[k]), f"{what}: {k} is kept")
    c.oblige(y.attrs["units"] is units, f"{what}: the units are those of the values")


def method_job(name):
    """x.<name>(...) gives what the method of unyt gives, with the attributes of x, as a quantity exactly when it is a scalar."""
    job = Job(f"cosmo_array.{name}", budget_s=40)
    original = getattr(unyt_array, name)

    def body(job, I, c):
        w, x = start(job, I, c)
        units = token("units of the result")
        shape = () if (c.choose(2) if name in ANY_KIND else x.cls is objects().cosmo_quantity) else ("n",)
        if name in ANY_KIND:
            cls = [unyt_array, unyt_quantity, objects().cosmo_array, objects().cosmo_quantity][c.choose(4)]
        else:
            cls = x.cls if name not in ("compress", "diagonal") else objects().cosmo_array
        asked, args = [], [token("argument")]
        made = []

        def inner(me, *a, **k):
            asked.append((me, a, k))
            made.append(bare(w, cls, shape, units))
            return made[-1]
        job.assumed.add(f"unyt: {name} gives an array with the values and units of numpy's {name}, and no frame")
        I.models[original] = inner
        before = state(x)
        y = I.call(I.getattr(x, name), args, {})
        if len(asked) != 1:
            raise CannotAttach(f"use of {name}")
        me, a, k = asked[0]
        c.oblige(me is x and len(a) == 1 and a[0] is args[0] and not k, "the method of unyt is given the same arguments")
        kept(c, y, before, units, name)
        if isinstance(y, SymObj):
            c.oblige(y.attrs["data"] is made[0].attrs["data"], "the values are the method's")
            if name in ANY_KIND:
                c.oblige((y.cls is objects().cosmo_quantity) == (shape == ()), "a quantity exactly for a scalar")
        if x.cls is objects().cosmo_array:
            unchanged(c, x, before, "the original")
    return job.run(body)


def view_job():
    """Views share the values and keep the attributes; T and transpose too."""
    job = Job("cosmo_array.view, T", budget_s=40)

    def body(job, I, c):
        w, x = start(job, I, c)
        before = state(x)
        k = c.choose(2)
        if k == 0:
            y = I.call(I.getattr(x, "view"), [x.cls])
            c.oblige(y.attrs["data"] is before["buffer"], "a view shares the values")
            kept(c, y, before, x.attrs["units"], "view")
        else:
            r = bare(w, x.cls, () if x.cls is objects().cosmo_quantity else ("n",), x.attrs["units"])
            I.models[unyt_array.transpose] = lambda me, *a, **k: r
            y = I.getattr(x, "T")
            kept(c, y, before, x.attrs["units"], "T")
            c.oblige(y.attrs["data"] is r.attrs["data"], "T has the transposed values")
    return job.run(body)


def finalize_job():
    """__array_finalize__ (numpy calls it on every new view or copy) takes the attributes of the array it is made from."""
    job = Job("cosmo_array.__array_finalize__", budget_s=40)

    def body(job, I, c):
        w, x = start(job, I, c)
        done = []
        job.super_models["__array_finalize__"] = lambda me: model(lambda *a, **k: done.append(a))
        y = SymObj(objects().cosmo_array, {}, name="new")
        kind = c.choose(3)
        before = state(x)
        src = [x, None, bare(w, unyt_array, ("n",), token("units"))][kind]
        I.call(I.getattr(y, "__array_finalize__"), [src])
        c.oblige(len(done) == 1 and done[0] == (src,), "unyt's own bookkeeping is done")
        if kind == 0:
            for k in ATTRS:
                c.oblige(y.attrs.get(k, "missing") is before[k], f"{k} is taken along")
        elif kind == 2:
            c.oblige(y.attrs.get("comoving", "missing") is None, "no frame is made up")
            c.oblige(y.attrs.get("cosmo_factor", "missing") is objects().NULL_CF, "no factor is made up")
            c.oblige(y.attrs.get("compression", "missing") is None, "no compression is made up")
    return job.run(body)


def pickle_job():
    """An array made from the state of another has its attributes, and unyt gets its own state back."""
    job = Job("cosmo_array.__reduce__, __setstate__", budget_s=40)

    def body(job, I, c):
        w, x = start(job, I, c)
        rec, args, s = token("reconstructor"), token("arguments"), tuple(token(f"state{i}") for i in range(c.choose(4)))
        extra = tuple(token(f"extra{i}") for i in range(c.choose(2)))
        got = []
        job.super_models["__reduce__"] = lambda me: model(lambda: (rec, args, s) + extra)
        job.super_models["__setstate__"] = lambda me: model(lambda st: got.append(st))
        before = {k: x.attrs[k] for k in ATTRS}
        r = I.call(I.getattr(x, "__reduce__"), [])
        if not isinstance(r, tuple) or len(r) < 3:
            c.oblige(False, "__reduce__ gives a reconstructor, its arguments and a state")
            return
        c.oblige(r[0] is rec and r[1] is args and all(p is q for p, q in zip(r[3:], extra)) and len(r) == 3 + len(extra), "the reconstructor is unyt's")
        y = SymObj(x.cls, {}, name="unpickled")
        I.call(I.getattr(y, "__setstate__"), [r[2]])
        for k in ATTRS:
            c.oblige(y.attrs.get(k, "missing") is before[k], f"{k} survives pickling")
        c.oblige(len(got) == 1 and len(got[0]) == len(s) and all(p is q for p, q in zip(got[0], s)), "unyt gets its own state back")
    return job.run(body)
