"""Contracts of the constraint methods of SWIFTMask (C04)."""
import h5py
import numpy as np
import z3

from checks import rows
from checks.maskp import GROUPS, Rec, a_mask, call, cls, qual
from checks.rows import forall
from pyvc import values as V
from pyvc.arrays import SArr, fresh_array, mask_selection
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, Unsupported, as_bool, compare, is_sym, ite, land, lnot, lor, mk, term


class Region:
    """What _sanitize_region returns."""


def contract(job, name, fn):
    """A contract for a method of SWIFTMask: fn(I, self, *args, **kw)."""
    def f(I, fv, args, kw):
        job.assumed.add("contract:" + fv.qual)
        return fn(I, *args, **kw)
    job.contracts[qual(name)] = f


def snapshot(me):
    """What is in a mask: attributes, and the contents of its arrays."""
    out = {}
    for k, v in me.attrs.items():
        if isinstance(v, SArr):
            out[k] = (v, v.snapshot())
        elif isinstance(v, dict):
            out[k] = (v, {q: (w, w.snapshot() if isinstance(w, SArr) else None) for q, w in v.items()})
        else:
            out[k] = (v, None)
    return out


LAZY = ("_update_list", "_group_mapping", "_group_size_mapping")


def unchanged(c, me, before, what, skip=()):
    i, j = c.int("any"), c.int("any")

    def same(now, was, fn):
        if fn is None:
            return now is was or (not is_sym(now) and not isinstance(now, SymObj) and now == was) or compare("==", now, was)
        if not isinstance(now, SArr):
            return False
        if now.ndim != was.ndim:
            return False
        ix = (i, j)[:was.ndim]
        inr = land(*[land(q >= 0, q < n) for q, n in zip(ix, was.shape)], *[compare("==", m, n) for m, n in zip(now.shape, was.shape)])
        return land(*[compare("==", m, n) for m, n in zip(now.shape, was.shape)], SV(z3.Implies(as_bool(inr), as_bool(compare("==", now.get(*ix), fn(*ix))))))
    for k, (v, fn) in before.items():
        if k in LAZY or k in skip:
            continue
        if isinstance(v, dict):
            now = me.attrs[k]
            c.oblige(set(now) == set(fn), f"{k} has the same groups {what}")
            for q, (w, f) in fn.items():
                c.oblige(same(now[q], w, f), f"{k}[{q}] is unchanged {what}")
        else:
            c.oblige(same(me.attrs.get(k), v, fn), f"{k} is unchanged {what}")


STATES = [None, "constrain_spatial", "constrain_property", "constrain_indices", "constrain_index"]


def spatial_job(shared):
    job = Job(f"constrain_spatial ({'shared' if shared else 'per group'})", budget_s=90)
    job.max_paths = 400

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=True)
        N = c.int("cells")
        c.assume(N >= 0)
        old, new = {g: fresh_array("old_" + g, (N,), "b") for g in names}, {g: fresh_array("new_" + g, (N,), "b") for g in names}
        for g in names:
            me.attrs["_" + g] = fresh_array("rows_" + g, (c.int("m"),), "i")
        old_f = {g: old[g].snapshot() for g in names}
        new_f = {g: new[g].snapshot() for g in names}
        me.attrs["cell_mask"] = dict(old)
        state = STATES[c.choose(len(STATES))]
        me.attrs["constrained"] = state
        union, intersect = [False, True][c.choose(2)], [None, True, False][c.choose(3)]
        log = []
        region, clean = SymObj(Region, {}, name="restrict"), SymObj(Region, {}, name="clean")
        bad = c.choose(2)

        def sanitize(I, self, r):
            c.oblige(self is me and r is region, "the region given is the one checked", kind="pre")
            if bad:
                raise ValueError("bad region")
            return clean

        def generate(I, self, restrict=None):
            c.oblige(self is me and restrict is clean, "cells are chosen for the checked region", kind="pre")
            log.append("generate")
            return dict(new)

        def update(I, self):
            c.oblige("generate" in log, "rows are updated after the cells have been chosen", kind="pre")
            log.append(("update", {g: a.snapshot() for g, a in self.attrs["cell_mask"].items()}))
        contract(job, "_sanitize_region", sanitize)
        contract(job, "_generate_cell_mask", generate)
        contract(job, "_update_range_masks", update)
        before = snapshot(me)
        kw = dict(union=union) if intersect is None else dict(union=union, intersect=intersect)
        u = union if intersect is None else intersect
        legal = state is None or (state == "constrain_spatial" and u)
        i = c.int("cell")
        c.assume(land(i >= 0, i < N))
        try:
            call(I, me, "constrain_spatial", region, **kw)
        except ValueError:
            c.oblige(bool(bad), "only a malformed region is rejected with ValueError")
            unchanged(c, me, before, "after a rejected region")
            return
        except RuntimeError:
            c.oblige(not legal, f"a defined combination is accepted ({state}, union={u})")
            unchanged(c, me, before, "after a rejected constraint")
            return
        c.oblige(legal and not bad, f"an undefined combination is rejected ({state}, union={u})")
        c.oblige(me.attrs["constrained"] == "constrain_spatial", "the constraint is recorded")
        now = me.attrs["cell_mask"]
        c.oblige(set(now) == set(names), "every group has its cells")
        for g in names:
            a, b = mk(old_f[g](i)), mk(new_f[g](i))
            c.oblige(compare("==", now[g].get(i), lor(a, b) if state else b), f"the cells selected are the union ({g})" if state else f"the cells selected are those of the region ({g})")
            ups = [e for e in log if e[0] == "update"]
            c.oblige(bool(ups), "the rows are updated")
            if ups:
                c.oblige(compare("==", mk(ups[-1][1][g](i)), now[g].get(i)), f"the rows are updated from the final cells ({g})")
        c.oblige(me.attrs["range_mask"] is True, "the form of the mask is kept")
    return job.run(body)


def file_of(c, data, path="PartType0/Temp"):
    """The open snapshot with one dataset."""
    ds = SymObj(h5py.Dataset, {"attrs": SymObj(Rec, {}, name="field_attributes")}, name="dataset")
    ds.attrs[("special", "__array__")] = data

    def item(k):
        c.oblige(k == path, "the field of the quantity is read", kind="pre")
        return ds
    f = SymObj(h5py.File, {}, name="file")
    f.attrs[("special", "__getitem__")] = model(item)
    f.attrs[("special", "__enter__")] = model(lambda: f)
    f.attrs[("special", "__exit__")] = model(lambda *a: None)
    return f, ds


def property_job(shared):
    job = Job(f"constrain_property ({'shared' if shared else 'per group'})", budget_s=90)

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=False)
        key = {"gas": "shared" if shared else "gas", "dark_matter": "shared" if shared else "dark_matter"}
        flags = {g: fresh_array("flag_" + g, (size[g],), "b") for g in names}
        was = {g: flags[g].snapshot() for g in names}
        for g in names:
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = SymObj(Rec, {}, name="mask"), c.int("size")
        me.attrs["cell_mask"] = {g: SymObj(Rec, {}, name="cells") for g in names}
        state = STATES[c.choose(len(STATES))]
        me.attrs["constrained"] = state
        converted = []

        def to_bool(I, self):
            converted.append(1)
            for g in names:
                self.attrs["_" + g], self.attrs[f"_{g}_size"] = flags[g], size[g]
            self.attrs["range_mask"] = False
        contract(job, "convert_masks_to_bool", to_bool)
        which = GROUPS[c.choose(2)]
        k = key[which]
        data = fresh_array("data", (size[k],), "r")
        data.frozen = True
        meta = me.attrs["metadata"]
        meta.attrs["units"] = SymObj(Rec, {}, name="units")
        f, ds = file_of(c, data)
        meta.attrs["open_file"] = model(lambda: f)
        for g in GROUPS:
            meta.attrs[g + "_properties"] = SymObj(Rec, {"field_names": ["mass", "temp"], "field_paths": ["PartType0/Mass", "PartType0/Temp"] if g == which else ["Other/Mass", "Other/Temp"]}, name=g)
        import sys
        MM = sys.modules["swiftsimio.masks"]
        token = {}
        for nm in ("_load_field_units", "_load_field_physical", "_load_field_cosmo_factor"):
            token[nm] = SymObj(Rec, {}, name=nm) if nm != "_load_field_physical" else c.bool("physical")

            def load(I, fv, args, kw, nm=nm):
                c.oblige(args[0] is ds.attrs["attrs"], "the attributes of the field are used", kind="pre")
                job.assumed.add("contract:" + fv.qual)
                return token[nm]
            job.contracts[funcval(getattr(MM, nm)).qual] = load
        made = []

        def cosmo(*a, **kw):
            made.append((a, kw))
            return a[0]
        I.class_models[MM.cosmo_array] = cosmo
        job.assumed.add("model:cosmo_array(values, …) holds the values it is given")
        lo, hi = c.real("lower"), c.real("upper")
        call(I, me, "constrain_property", which, "temp", lo, hi)
        c.oblige(bool(converted), "the mask is brought into boolean form")
        c.oblige(me.attrs["constrained"] == "constrain_property", "the constraint is recorded")
        p = c.int("row")
        for g in names:
            m = me.attrs["_" + g]
            inr = as_bool(land(p >= 0, p < size[g]))
            old = mk(was[g](p))
            want = land(old, compare(">", data.get(p), lo), compare("<=", data.get(p), hi)) if g == k else old
            c.oblige(compare("==", m.shape[0], size[g]), f"one flag per row ({g})")
            c.oblige(z3.Implies(inr, as_bool(compare("==", m.get(p), want))),
                     f"exactly the selected rows with lower < value <= upper stay selected ({g})" if g == k else f"the other groups are untouched ({g})")
        c.oblige(len(made) == 1, "the values are compared as a cosmology-aware array")
        for a, kw in made:
            c.oblige(len(a) == 1 and kw.get("units") is token["_load_field_units"] and kw.get("cosmo_factor") is token["_load_field_cosmo_factor"],
                     "the values have the units and scale-factor expression of the field")
            c.oblige(compare("==", kw.get("comoving"), lnot(token["_load_field_physical"])), "the values are in the frame of the field")
    return job.run(body)


def model(f):
    """`f` stands for an external function."""
    f.pyvc_model = True
    return f


def indices_job(shared, range_mask, which="constrain_indices"):
    job = Job(f"{which} ({'shared' if shared else 'per group'}, {'ranges' if range_mask else 'boolean'})", budget_s=120)

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=range_mask)
        state = STATES[c.choose(len(STATES))]
        me.attrs["constrained"] = state
        meta = me.attrs["metadata"]
        homog = [True, False][c.choose(2)] if state is None else True
        meta.attrs["homogeneous_arrays"] = homog
        n = c.int("n")
        c.assume(n >= (1 if which == "constrain_index" else 0))
        flags = {}
        for g in names:
            if range_mask:
                me.attrs["_" + g] = SArr((c.int("m"), 2), lambda i, j: 0, "i", "ranges")
            else:
                me.attrs["_" + g] = fresh_array("flag_" + g, (size[g],), "b")
                flags[g] = me.attrs["_" + g].snapshot()
            me.attrs[f"_{g}_size"] = c.int("size")
        if which == "constrain_index":
            one = c.int("index")
            c.assume(one >= 0)
            n, val = 1, (lambda k: one)
            arg = one
        else:
            arg = fresh_array("indices", (n,), "i")
            arg.frozen = True
            val = arg.snapshot()
        i = z3.Int("i!v")
        for g in names:
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < term(n)), z3.And(term(val(SV(i))) >= 0, term(val(SV(i))) < term(size[g])))))
        before = snapshot(me)
        out = []

        def rfa(I, fv, args, kw):
            x = args[0]
            c = V.ctx()
            job.assumed.add("contract:" + fv.qual)
            if not isinstance(x, SArr):
                from pyvc.arrays import from_concrete
                x = from_concrete(x)
            f = x.snapshot()
            s, t = c.int("s"), c.int("t")
            c.oblige(compare("==", x.shape[0], n), "as many indices as were given", kind="pre")
            # adjacent order is the order of all pairs, by induction on their distance
            c.oblige(z3.Implies(as_bool(land(s >= 0, s + 1 < x.shape[0])), as_bool(compare("<=", f(s), f(s + 1)))), "the indices are ascending", kind="pre")
            c.oblige(z3.Implies(as_bool(land(s >= 0, s < t, t + 1 < x.shape[0], compare("<=", f(s), f(t)), compare("<=", f(t), f(t + 1)))),
                                as_bool(compare("<=", f(s), f(t + 1)))), "order of all pairs (induction step)", kind="lemma")
            # the same rows as were asked for, both ways
            order = x.attrs.get("order")
            k = c.int("k")

            def found(a, b, w):
                """Some q in range has a(q) == b."""
                ws = [k] + ([w(k)] if order is not None else [])
                return z3.Implies(as_bool(land(k >= 0, k < n)), as_bool(lor(*[land(q >= 0, q < n, compare("==", a(q), b)) for q in ws])))
            c.oblige(found(val, f(k), lambda k: order.get(k)), "every index in the ranges was asked for", kind="pre")
            c.oblige(found(f, val(k), lambda k: order.attrs["inverse"](k)), "every index asked for is in the ranges", kind="pre")
            a = SArr((c.int("ranges"), 2), lambda i, j: 0, "i", "ranges")
            out.append(a)
            return a
        job.contracts[funcval(rows.get("ranges_from_array")).qual] = rfa
        legal = state is None and homog
        try:
            call(I, me, which, arg)
        except RuntimeError:
            c.oblige(not legal, f"a defined combination is accepted ({state})")
            unchanged(c, me, before, "after a rejected constraint")
            return
        c.oblige(legal, f"an undefined combination is rejected ({state})")
        c.oblige(me.attrs["constrained"] == which, "the constraint is recorded")
        p = c.int("row")
        for g in names:
            a = me.attrs["_" + g]
            if range_mask:
                c.oblige(any(a is x for x in out), f"the rows are the ranges of the indices ({g})")
                c.oblige(compare("==", me.attrs[f"_{g}_size"], n), f"the size is the number of rows ({g})")
            else:
                c.oblige(compare("==", a.shape[0], size[g]), f"one flag per row ({g})")
                k = z3.Int("k!m")
                asked = z3.Exists([k], z3.And(k >= 0, k < term(n), term(val(SV(k))) == p.t))
                c.oblige(z3.Implies(as_bool(land(p >= 0, p < size[g])), as_bool(a.get(p)) == z3.And(as_bool(mk(flags[g](p))), asked)),
                         f"exactly the given rows are selected ({g})")
    return job.run(body)
