"""Contract of generate_smoothing_lengths (C21)."""
import importlib

import z3

from checks.deposit import get
from pyvc.arrays import SArr, getitem
from pyvc.interp import SymObj, funcval
from pyvc.job import Job, LoopSpec
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, as_real, compare, concrete, ctx, is_sym, ite, land, power, term

MOD = "swiftsimio.visualisation.smoothing_length.generate"


class Unit:
    pass


class Tree:
    pass


def model(f):
    f.pyvc_model = True
    return f


def same(a, b):
    """Are two frame flags the same (symbolic or not)?"""
    return as_bool(compare("==", a, b)) if is_sym(a) or is_sym(b) else a == b


def length_job():
    """The smoothing length of every particle is the distance the tree reports to its (neighbours // speedup)-th nearest
    particle, in the periodic box expressed in the frame and units of the coordinates, times speedup^(1/dimension) / gamma."""
    import numpy as np
    import swiftsimio as sw
    job = Job("generate_smoothing_lengths", budget_s=90)
    mod = importlib.import_module(MOD)
    scipy_tree = mod.KDTree

    def body(job, I, c):
        N, nb, sp, dim = c.int("n_particles"), c.int("neighbours"), c.int("speedup"), c.int("dimension")
        gamma = c.real("gamma")
        c.assume(land(N >= 1, sp >= 1, nb >= sp, dim >= 1, gamma > 0))
        com, bcom = c.bool("comoving"), c.bool("box_comoving")
        X = c.func("x", "i", "i", "r")
        B = c.func("box", "b", "i", "r")
        D = c.func("kth_distance", "r", "r", "r", "i", "r")
        unit = SymObj(Unit, {}, name="units of the coordinates")
        factor_, valid, comp = SymObj(Unit, {}, name="cosmo_factor"), SymObj(Unit, {}, name="valid_transform"), SymObj(Unit, {}, name="compression")
        P = c.func("power", "r", "r", "r")
        c.power_rule = lambda a, b: SV(P(as_real(a), as_real(b)))
        results = []

        def times(values):
            return SymObj(sw.cosmo_array, dict(data=values, units=unit), name="product")
        unit.attrs[("special", "__rmul__")] = unit.attrs[("special", "__mul__")] = model(times)

        def value_in(what, data):
            def to_value(u=None, *a, **kw):
                if u is not unit or a or kw:
                    raise Unsupported("to_value in other units")
                return data()
            return model(to_value)

        def coords(lo, n):
            def data():
                r = SArr((n, 3), lambda i, j: SV(X(term(i + lo), term(j))), "r", "coordinates")
                r.rows_from = lo
                return r

            def item(key):
                if isinstance(key, tuple):
                    raise Unsupported("coordinate index")
                from pyvc.arrays import norm_slice
                if not isinstance(key, slice):
                    raise Unsupported("coordinate index")
                a, ln, step = norm_slice(key, n)
                return coords(lo + a, ln)
            o = SymObj(sw.cosmo_array, dict(shape=(n, 3), units=unit, comoving=com, ndim=2, cosmo_factor=factor_, valid_transform=valid, compression=comp), name="coordinates")
            o.attrs["to_value"] = value_in("coordinates", data)
            o.attrs[("special", "__getitem__")] = model(item)
            o.attrs[("special", "__len__")] = model(lambda: n)
            return o

        def box(flag):
            o = SymObj(sw.cosmo_array, dict(comoving=flag, shape=(3,), ndim=1), name="boxsize")

            def to(*a, **kw):
                if a or set(kw) - {"comoving"}:
                    raise Unsupported("conversion of the box")
                f = kw.get("comoving")
                return box(flag if f is None else f)

            def data():
                return SArr((3,), lambda j: SV(B(term(flag), term(j))), "r", "box")
            o.attrs["to"] = model(to)
            o.attrs["to_value"] = value_in("box", data)
            return o

        def tree(data, *a, boxsize=None, **kw):
            if a:
                raise Unsupported("arguments of the tree")
            t = SymObj(Tree, {}, name="tree")
            i, j = c.int("i"), c.int("j")
            c.assume(land(i >= 0, i < N, j >= 0, j < 3))
            c.oblige(compare("==", data.shape[0], N), "the tree holds every particle")
            c.oblige(compare("==", data.get(i, j), SV(X(i.t, j.t))), "the tree holds the coordinates")
            if boxsize is None:
                c.oblige(False, "the tree is periodic")
            else:
                if not isinstance(boxsize, SArr):
                    raise Unsupported("box of the tree")
                c.oblige(compare("==", boxsize.get(j), SV(B(term(com), j.t))), "the tree's box is the box, in the frame and units of the coordinates")

            def query(x, k=1, **kw):
                if set(kw) - {"workers", "n_jobs"}:
                    raise Unsupported("arguments of the query")
                q = x.snapshot()
                n = x.shape[0]
                if isinstance(k, list):
                    ks = list(k)
                    f = lambda i, j: SV(D(*[as_real(q(i, a)) for a in range(3)], term(kth(ks, j))))
                    d = SArr((n, len(ks)), f, "r", "distances")
                else:
                    if c.branch(as_bool(compare("==", k, 1))):
                        d = SArr((n,), lambda i: SV(D(*[as_real(q(i, a)) for a in range(3)], z3.IntVal(1))), "r", "distances")
                    else:
                        d = SArr((n, k), lambda i, j: SV(D(*[as_real(q(i, a)) for a in range(3)], term(j + 1))), "r", "distances")
                return d, SArr(d.shape, lambda *ix: 0, "i", "neighbours")
            t.attrs["query"] = model(query)
            return t

        def kth(ks, j):
            j = concrete(j)
            if not is_sym(j):
                return ks[j]
            r = ks[-1]
            for a in range(len(ks) - 2, -1, -1):
                r = ite(compare("==", j, a), ks[a], r)
            return r
        job.overrides[(MOD, "KDTree")] = model(tree)
        job.overrides["KDTree"] = model(tree)
        job.overrides["TREE_AVAILABLE"] = True

        def made(x, *a, **kw):
            if not isinstance(x, SymObj) or "data" not in x.attrs or a:
                raise Unsupported("construction of the result")
            o = SymObj(sw.cosmo_array, dict(x.attrs), name="result")
            for k in ("comoving", "scale_factor", "scale_exponent", "cosmo_factor"):
                if k in kw:
                    raise Unsupported("construction of the result")
            results.append(o)
            return o
        I.class_models[sw.cosmo_array] = made

        p = c.int("particle")
        c.assume(land(p >= 0, p < N))
        want = SV(D(*[X(p.t, z3.IntVal(a)) for a in range(3)], term(nb // sp)))

        def inv(env, k):
            fr = env._fr
            arrs = [v for v in fr.locals.values() if isinstance(v, SArr) and v.ndim == 1 and v.dt == "r" and c.entails(as_bool(compare("==", v.shape[0], N)))]
            size = [v for v in (concrete(v) for n, v in fr.locals.items()) if isinstance(v, int) and not isinstance(v, bool) and v > 1000]
            if len(arrs) != 1 or len(size) != 1:
                raise CannotAttach("smoothing lengths and block size")
            yield "the blocks so far are filled", compare("==", 1, 1) if isinstance(k, int) and k == 0 else \
                SV(z3.Implies(term(p < k * size[0]), term(compare("==", getitem(arrs[0], p), want))))
        job.loops = [LoopSpec([], inv, fn="generate_smoothing_lengths", nth=None)]
        out = I.call(get(MOD, "generate_smoothing_lengths"), [coords(0, N), box(bcom), gamma, nb, sp, dim])
        if not isinstance(out, SymObj) or out.cls is not sw.cosmo_array:
            c.oblige(False, "a cosmo_array is returned")
            return
        data = out.attrs["data"]
        c.oblige(compare("==", data.shape[0], N), "one smoothing length per particle")
        c.oblige(out.attrs["units"] is unit, "in the units of the coordinates")
        c.oblige(compare("==", I.getattr(out, "comoving"), com), "in the frame of the coordinates")
        c.oblige(I.getattr(out, "cosmo_factor") is factor_, "with the scale factor of the coordinates")
        c.oblige(I.getattr(out, "valid_transform") is valid, "as convertible as the coordinates")
        factor = power(sp, 1 / dim)
        c.oblige(compare("==", data.get(p), want * (factor / gamma)), "every particle's smoothing length is its scaled neighbour distance")
    return job.run(body)


def as_sv(x):
    return x if isinstance(x, SV) else SV(term(x))
