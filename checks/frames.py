"""Arrays with a frame (cosmo_array): a model of what unyt does underneath, and the contracts of the conversions (C07)."""
import importlib

import numpy as np
import unyt
import z3
from unyt import unyt_array, unyt_quantity

from checks.cosmo import Algebra, Raised, attempt, den, model, objects
from pyvc.arrays import SArr, elementwise
from pyvc.interp import SymObj
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, concrete, is_sym, kind, land, lnot, lor, term


class Unit:
    pass


class UnitConversionError(Exception):
    pass


class World:
    """Symbolic cosmo_arrays over symbolic units, with the methods inherited from unyt as assumed contracts: a new array has the
    values (times the conversion factor of the units), and none of the attributes; `view` shares the values and takes the
    attributes along; convert_to_units changes values and units in place or raises and changes nothing."""

    def __init__(self, job, I, c):
        self.job, self.I, self.c = job, I, c
        self.alg = Algebra(c)
        self.alg.install(job)
        self.kappa = {}
        self.arrays = 0
        job.assumed.add("unyt: copy, view, in_units, to, convert_to_units change values by the conversion factor only; all but view drop the frame")
        for n in ("copy", "__copy__", "__deepcopy__"):
            I.models[getattr(unyt_array, n)] = lambda me, *a, **k: self.fresh(me, self.values(me), me.attrs["units"])
        I.models[unyt_array.in_units] = self.in_units
        I.models[unyt_array.to] = self.in_units
        I.models[unyt_array.convert_to_units] = self.convert_to_units
        I.models[unyt_array.view] = self.view
        I.models[unyt_array.__getitem__] = self.getitem
        old = I.models.get(np.array)

        def array(x, *a, **k):
            if isinstance(x, SymObj) and "data" in x.attrs:
                if k.get("copy", True) is not True:
                    raise Unsupported("np.array without a copy")
                return self.values(x)
            return old(x, *a, **k) if old else NotImplemented
        I.models[np.array] = array
        old2 = I.models.get(np.asarray)

        def asarray(x, *a, **k):
            if isinstance(x, SymObj) and "data" in x.attrs:
                if a or k:
                    raise Unsupported("np.asarray of an array with a frame")
                return x.attrs["data"]
            return old2(x, *a, **k) if old2 else NotImplemented
        I.models[np.asarray] = asarray

    # ---- parts
    def unit(self, name):
        return SymObj(Unit, {}, name=name)

    def factor(self, u, v):
        if u is v:
            return 1.0
        if not isinstance(v, SymObj) or v.cls is not Unit or u.cls is not Unit:
            raise Unsupported("units")
        key = (id(u), id(v))
        if key not in self.kappa:
            k = self.c.real("conversion")
            self.c.assume(k > 0)
            self.kappa[key] = k
            self.kappa[key, "keep"] = (u, v)
        return self.kappa[key]

    def values(self, me):
        d = me.attrs["data"]
        f = d.snapshot()
        return SArr(d.shape, f, d.dt, d.name + "_copy")

    def make(self, cls, data, units, comoving, cf, vt, comp, name="array"):
        self.arrays += 1
        o = SymObj(cls, dict(data=data, units=units, comoving=comoving, cosmo_factor=cf, valid_transform=vt, compression=comp), name=name)
        g = lambda n, f: o.attrs.__setitem__(("getattr", n), f)
        g("d", lambda me: me.attrs["data"])
        g("ndview", lambda me: me.attrs["data"])
        g("v", lambda me: self.values(me))
        g("value", lambda me: self.values(me))
        g("shape", lambda me: me.attrs["data"].shape)
        g("ndim", lambda me: me.attrs["data"].ndim)
        return o

    def fresh(self, me, data, units):
        """What type(me)(data, units) gives."""
        return self.make(me.cls, data, units, None, objects().NULL_CF, False, None, "new array")

    def array(self, cls=None, comoving=None, vt=None, cf=None, name="x", units=None):
        c = self.c
        n = c.int("n_" + name)
        c.assume(n >= 0)
        f = c.func(name, "i", "r")
        data = SArr((n,), lambda i: SV(f(term(i))), "r", name)
        return self.make(cls or objects().cosmo_array, data, units or self.unit("units of " + name), comoving, cf, vt,
                         SymObj(Unit, {}, name="compression of " + name), name)

    # ---- inherited methods
    def in_units(self, me, units=None, equivalence=None, **kw):
        if units is None or equivalence is not None or kw:
            raise Unsupported("conversion of units")
        if units is not me.attrs["units"] and self.c.choose(2):
            raise UnitConversionError("units")
        k = self.factor(me.attrs["units"], units)
        return self.fresh(me, elementwise(lambda v: v * k, self.values(me)), units)

    def convert_to_units(self, me, units=None, equivalence=None, **kw):
        if units is None or equivalence is not None or kw:
            raise Unsupported("conversion of units")
        if units is not me.attrs["units"] and self.c.choose(2):
            raise UnitConversionError("units")
        k = self.factor(me.attrs["units"], units)
        d = me.attrs["data"]
        d.set_all(elementwise(lambda v: v * k, self.values(me)).snapshot())
        me.attrs["units"] = units

    def getitem(self, me, key):
        if key is Ellipsis or key == slice(None) or key == (Ellipsis,):
            return self.view(me)
        raise Unsupported("index into an array with a frame")

    def view(self, me, cls=None, *a, **kw):
        if a or kw:
            raise Unsupported("view")
        cls = me.cls if cls is None else cls
        if cls is np.ndarray:
            return me.attrs["data"]
        if not (isinstance(cls, type) and issubclass(cls, unyt_array)):
            raise Unsupported("view")
        at = me.attrs
        if issubclass(cls, objects().cosmo_array):
            return self.make(cls, at["data"], at["units"], at.get("comoving"), at.get("cosmo_factor", objects().NULL_CF),
                             at.get("valid_transform", True), at.get("compression"), "view")
        raise Unsupported("view as a unyt_array")


FLAGS = ("comoving", "cosmo_factor", "valid_transform", "compression", "units")


def state(o):
    d = o.attrs["data"]
    return {k: o.attrs[k] for k in FLAGS} | {"buffer": d, "shape": d.shape, "fn": d.snapshot()}


def unchanged(c, o, st, what):
    for k in FLAGS:
        c.oblige(o.attrs[k] is st[k], f"{what}: {k} unchanged")
    c.oblige(o.attrs["data"] is st["buffer"], f"{what}: the same values")
    i = c.int("i")
    c.assume(land(i >= 0, i < st["shape"][0]))
    c.oblige(compare("==", o.attrs["data"].get(i), st["fn"](i)), f"{what}: values unchanged")


STATES = [(True, True), (False, True), (False, False), (None, False), (None, True)]


def setup(job, I, c, cls=None):
    """An arbitrary array in one of its legal states; its factor may be unknown."""
    w = World(job, I, c)
    com, vt = STATES[c.choose(len(STATES))]
    known = not c.choose(2)
    cf = w.alg.factor("factor", known, known)
    cls = cls or [objects().cosmo_array, objects().cosmo_quantity][c.choose(2)]
    x = w.array(cls, com, vt, cf)
    return w, x, com, vt, den(cf)


def expected(com, vt, to):
    """Frame after a conversion to the frame `to` (None: no conversion), or "raises"."""
    if to is None or com is to:
        return com
    if com is None:
        return "raises"
    if to is True and not vt:
        return "raises"
    return to


def rescale(v, com, to, f):
    """Value after going from frame com to frame `to`."""
    if com is to or to is None:
        return v
    return v * f if to is False else v / f


METHODS = {"convert_to_physical": False, "convert_to_comoving": True, "to_physical": False, "to_comoving": True, "to": None, "to_value": None,
           "to_physical_value": False, "to_comoving_value": True}


def conversion_job(name):
    job = Job(f"cosmo_array.{name}", budget_s=100)

    def body(job, I, c):
        w, x, com, vt, f = setup(job, I, c)
        frame = METHODS[name]
        kw, args = {}, []
        if name in ("to", "to_value"):
            frame = [None, True, False][c.choose(3)]
            if frame is not None:
                kw["comoving"] = frame
        u0 = x.attrs["units"]
        if name in ("to_physical_value", "to_comoving_value"):
            u = [u0, w.unit("other units")][c.choose(2)]
            args = [u]
        else:
            u = [None, u0, w.unit("other units")][c.choose(3)]
            if u is not None:
                args = [u]
        u = u0 if u is None else u
        before = state(x)
        r = attempt(lambda: I.call(I.getattr(x, name), args, kw))
        want = expected(com, vt, frame)
        moved = want != "raises" and want is not com
        if isinstance(r, Raised):
            if isinstance(r.e, UnitConversionError):
                pass
            else:
                c.oblige(want == "raises" or (moved and f is None), "raises only when the conversion is not permitted")
                if want == "raises" and frame is True or com is None and want == "raises":
                    c.oblige(isinstance(r.e, objects().InvalidConversionError), "raises InvalidConversionError")
            if not (moved and f is None and name.startswith("convert")):
                unchanged(c, x, before, "after the refused conversion")
            return
        c.oblige(want != "raises", "a conversion that is not permitted raises")
        if want == "raises":
            return
        i = c.int("i")
        c.assume(land(i >= 0, i < before["shape"][0]))
        v0 = before["fn"](i) * w.factor(u0, u)
        if moved and f is None:
            c.oblige(False, "nothing is converted by an unknown factor")
            return
        v = rescale(v0, com, want, f)
        if name.startswith("convert"):
            c.oblige(r is None, "nothing is returned")
            y = x
            c.oblige(x.attrs["data"] is before["buffer"], "converted in place")
        else:
            unchanged(c, x, before, "the original")
            y = r
        if "value" in name:
            if not isinstance(r, SArr):
                c.oblige(False, "plain values are returned")
                return
            data = r
        else:
            if not isinstance(y, SymObj):
                c.oblige(False, "an array is returned")
                return
            c.oblige(y.cls is x.cls or y.cls is objects().cosmo_array, "of the same kind")
            c.oblige(y.attrs["comoving"] is want, "the frame is marked")
            c.oblige(y.attrs["units"] is u, "in the units asked for")
            for k in ("cosmo_factor", "valid_transform", "compression"):
                c.oblige(y.attrs[k] is before[k], f"{k} is kept")
            data = y.attrs["data"]
        if not name.startswith("convert"):
            c.oblige(data is not before["buffer"] and data.view_of is None, "the values are a copy")
        c.oblige(compare("==", data.shape[0], before["shape"][0]), "as many values")
        c.oblige(compare("==", data.get(i), v), "the values are scaled by the factor")
    return job.run(body)


def round_trip_job():
    """There and back restores the values."""
    job = Job("conversion round trip", budget_s=60)

    def body(job, I, c):
        w = World(job, I, c)
        com = [True, False][c.choose(2)]
        x = w.array(None, com, True, w.alg.factor("factor"))
        before = state(x)
        a, b = ("to_physical", "to_comoving") if com else ("to_comoving", "to_physical")
        if c.choose(2):
            a, b = a.replace("to_", "convert_to_"), b.replace("to_", "convert_to_")
            I.call(I.getattr(x, a), [])
            I.call(I.getattr(x, b), [])
            y = x
        else:
            y = I.call(I.getattr(I.call(I.getattr(x, a), []), b), [])
        i = c.int("i")
        c.assume(land(i >= 0, i < before["shape"][0]))
        c.oblige(y.attrs["comoving"] is com, "back in its frame")
        c.oblige(compare("==", y.attrs["data"].get(i), before["fn"](i)), "the values are restored")
    return job.run(body)
