"""Contracts of SWIFTMask (masks.py): C02, C03, C04, C05."""
import importlib
import sys

import h5py
import numpy as np
import z3

from checks import rows
from checks.rows import forall
from pyvc import values as V
from pyvc.arrays import SArr, SSel, compress, fresh_array, mask_selection
from pyvc.interp import SymObj, funcval
from pyvc.job import Job, LoopSpec
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, concrete, is_sym, ite, land, lnot, lor, mk, term


def cls():
    importlib.import_module("swiftsimio.masks")
    return sys.modules["swiftsimio.masks"].SWIFTMask


def qual(name):
    return "swiftsimio.masks:SWIFTMask." + name


class Rec:
    """A record."""


GROUPS = ["gas", "dark_matter"]


def a_mask(c, shared, range_mask=True, output_type="FULLBOX", **attrs):
    """A SWIFTMask with two particle groups (or shared counts)."""
    n = {g: c.int("n_" + g) for g in GROUPS}
    for v in n.values():
        c.assume(v >= 0)
    meta = SymObj(Rec, {"present_group_names": list(GROUPS), "present_groups": ["PartType0", "PartType1"],
                        "shared_cell_counts": "Subhalos" if shared else None, "output_type": output_type,
                        "homogeneous_arrays": True, **{"n_" + g: v for g, v in n.items()}}, name="metadata")
    if shared:
        meta.attrs["n_subhalos"] = n["gas"]
    me = SymObj(cls(), dict(metadata=meta, units=SymObj(Rec, {}, name="units"), range_mask=range_mask, constrained=None,
                            _group_mapping=None, _group_size_mapping=None, _update_list=None, **attrs), name="mask")
    names = ["shared"] if shared else list(GROUPS)
    size = {k: (n["gas"] if k in ("shared", "gas") else n[k]) for k in names}
    return me, names, size


def call(I, me, name, *a, **k):
    return I.call(I.getattr(me, name), list(a), k)


def hit(c, R, p):
    """hit(k): row p is in one of the first k ranges."""
    H = c.func("in_ranges", "i", "b")
    c.assume(z3.Not(H(0)))

    def unfold(k):
        kt = term(k)
        c.assume(z3.Implies(z3.And(kt >= 0, kt < term(R.m)), H(kt + 1) == z3.Or(H(kt), z3.And(R.F(kt, 0) <= term(p), term(p) < R.F(kt, 1)))))
    H.unfold = unfold
    return lambda k: SV(H(term(k))), unfold


# ------------------------------------------------------------------ conversions between the two forms
def to_bool_job(shared):
    job = Job(f"convert_masks_to_bool ({'shared' if shared else 'per group'})", budget_s=60)

    def body(job, I, c):
        me, names, size = a_mask(c, shared)
        R, P, H = {}, {}, {}
        for g in names:
            R[g] = rows.Ranges(c, name="ranges_" + g, upper=size[g], ordered=False)
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = R[g].arr, c.int("size")
            P[g] = c.int("row_" + g)
            c.assume(land(P[g] >= 0, P[g] < size[g]))
            H[g] = hit(c, R[g], P[g])

        def inv(env, k):
            g = env.mask_key[1:]
            if g not in names:
                raise CannotAttach("mask name")
            h, unfold = H[g]
            unfold(k)
            yield "exactly the rows of the ranges so far are selected", compare("==", env.mask_value.get(P[g]), h(k))
        job.loops = [LoopSpec(["mask_key", "mask_value"], inv, nth=None, fn="convert_masks_to_bool")]
        call(I, me, "convert_masks_to_bool")
        c.oblige(compare("==", me.attrs["range_mask"], False), "the mask is in boolean form")
        for g in names:
            m = me.attrs["_" + g]
            c.oblige(compare("==", m.shape[0], size[g]), f"one flag per row of {g}")
            c.oblige(compare("==", m.get(P[g]), H[g][0](R[g].m)), f"a row of {g} is selected iff one of its ranges holds it")
            c.oblige(compare("==", me.attrs[f"_{g}_size"], size[g]), f"the size of a boolean mask is its length ({g})")
    return job.run(body)


def to_bool_noop_job(which):
    """Converting to the form a mask already has changes nothing."""
    job = Job(f"{which} (already in that form)", budget_s=30)

    def body(job, I, c):
        me, names, size = a_mask(c, False, range_mask=which.endswith("ranges"))
        for g in names:
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = SymObj(Rec, {}, name="mask"), c.int("size")
        before = dict(me.attrs)
        call(I, me, which)
        for k, v in before.items():
            if k in ("_update_list", "_group_mapping", "_group_size_mapping"):
                continue
            c.oblige(me.attrs.get(k) is v, f"{k} is unchanged")
    return job.run(body)


def rfa_contract(me_job):
    def f(I, fv, args, kw):
        """ranges_from_array on ascending distinct indices."""
        c = V.ctx()
        x = args[0]
        me_job.assumed.add("contract:" + fv.qual)
        n = x.shape[0]
        if c.branch(as_bool(compare("==", n, 0))):
            a = SArr((1, 2), lambda i, j: 0, "i", "ranges")
            a.attrs["R"] = None
            return a
        xf = x.snapshot()
        i, j = z3.Ints("i!r j!r")
        s, t = c.int("s"), c.int("t")
        c.oblige(z3.Implies(as_bool(land(s >= 0, s < t, t < n)), as_bool(compare("<=", xf(s), xf(t)))), "the indices are ascending", kind="pre")
        u = c.func("idx", "i", "i")
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i < term(n)), u(i) == term(xf(SV(i)))), u(i)))
        R, pos = rows.rfa_contract_values(c, me_job, u, n, False)
        rof = c.func("range_at", "i", "i")
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i < term(n)), z3.And(
            rof(i) >= 0, rof(i) < R.m.t, pos(rof(i)) <= i, i < pos(rof(i)) + R.F(rof(i), 1) - R.F(rof(i), 0), u(i) == u(i))), rof(i)))
        R.arr.attrs.update(R=R, pos=pos, rof=rof, u=u)
        return R.arr
    return f


def to_ranges_job(shared):
    job = Job(f"convert_masks_to_ranges ({'shared' if shared else 'per group'})", budget_s=60)

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=False)
        M, P = {}, {}
        for g in names:
            M[g] = fresh_array("flag_" + g, (size[g],), "b")
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = M[g], size[g]
            P[g] = c.int("row_" + g)
            c.assume(land(P[g] >= 0, P[g] < size[g]))
        job.contracts[funcval(rows.get("ranges_from_array")).qual] = rfa_contract(job)
        call(I, me, "convert_masks_to_ranges")
        c.oblige(compare("==", me.attrs["range_mask"], True), "the mask is in range form")
        for g in names:
            a = me.attrs["_" + g]
            sel = mask_selection(M[g])
            c.oblige(compare("==", me.attrs[f"_{g}_size"], sel.count), f"the size is the number of rows selected ({g})")
            p = P[g]
            flag = as_bool(M[g].get(p))
            r = c.int("r")
            inr = as_bool(land(r >= 0, r < a.shape[0], a.get(r, 0) <= p, p < a.get(r, 1)))
            q = sel.inv(p.t)
            R = a.attrs.get("R")
            if R is not None:
                rr = a.attrs["rof"](q)
                c.oblige(z3.Implies(flag, z3.And(rr >= 0, rr < R.m.t, R.F(rr, 0) <= p.t, p.t < R.F(rr, 1), a.attrs["u"](q) == p.t)),
                         f"a selected row is in a range ({g})")
                k = a.attrs["pos"](r.t) + p.t - R.F(r.t, 0)
                c.assume(a.attrs["u"](k) == a.attrs["u"](k))
                c.oblige(z3.Implies(inr, z3.And(a.attrs["u"](k) == p.t, flag)), f"a row in a range is selected ({g})")
            else:
                c.oblige(z3.Not(flag), f"no rows are selected when there are no ranges ({g})")
                c.oblige(z3.Not(inr), f"the empty range holds no row ({g})")
    return job.run(body)


# ------------------------------------------------------------------ from cells to rows
def cells(c, me, names, size, N, sorted_=True):
    """Cells of every group: N runs of rows, in file order, in bounds."""
    cnt, off, msk = {}, {}, {}
    for g in names:
        C, O = c.func("count_" + g, "i", "i"), c.func("offset_" + g, "i", "i")
        i, j = z3.Ints("i!k j!k")
        inr = z3.And(i >= 0, i < N.t)
        c.assume(forall([i], z3.Implies(inr, z3.And(C(i) >= 0, O(i) >= 0, O(i) + C(i) <= term(size[g]))), C(i)))
        c.assume(forall([i], z3.Implies(inr, z3.And(C(i) >= 0, O(i) >= 0, O(i) + C(i) <= term(size[g]))), O(i)))
        cnt[g] = SArr((N,), lambda k, C=C: SV(C(term(k))), "i", "counts")
        off[g] = SArr((N,), lambda k, O=O: SV(O(term(k))), "i", "offsets")
        cnt[g].frozen = off[g].frozen = True
        msk[g] = fresh_array("cell_mask_" + g, (N,), "b")
        msk[g].frozen = True
    me.attrs.update(counts=dict(cnt), offsets=dict(off), cell_mask=dict(msk))
    return cnt, off, msk


def update_job(shared, range_mask):
    """_update_range_masks: the rows selected are exactly those of the selected cells."""
    job = Job(f"_update_range_masks ({'shared' if shared else 'per group'}, {'ranges' if range_mask else 'boolean'})", budget_s=60)

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=range_mask)
        N = c.int("cells")
        c.assume(N >= 0)
        cnt, off, msk = cells(c, me, names, size, N)
        P, old = {}, {}
        for g in names:
            old[g] = SArr((c.int("m"), 2), lambda i, j: 0, "i") if range_mask else fresh_array("flag_" + g, (size[g],), "b")
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = old[g], c.int("size")
            P[g] = c.int("row_" + g)
            c.assume(land(P[g] >= 0, P[g] < size[g]))
        sel = {g: mask_selection(msk[g]) for g in names}
        known = []
        for g in names:
            f = lambda k, g=g: cnt[g].get(SV(sel[g].Z(term(k))))
            known.append((sel[g].count, f, job.prefix(sel[g].count, f, "rows_" + g)))
        rows.sums(job, *known)
        # hit(k): row P is in one of the first k selected cells
        H = {}
        for g in names:
            f = c.func("in_cells_" + g, "i", "b")
            c.assume(z3.Not(f(0)))

            def unfold(k, g=g, f=f):
                z = sel[g].Z(term(k))
                o, n = term(off[g].get(SV(z))), term(cnt[g].get(SV(z)))
                c.assume(z3.Implies(z3.And(term(k) >= 0, term(k) < sel[g].count.t),
                                    f(term(k) + 1) == z3.Or(f(term(k)), z3.And(o <= P[g].t, P[g].t < o + n))))
            H[g] = (f, unfold)

        def inv(env, k):
            g = env.count_name
            f, unfold = H[g]
            unfold(k)
            yield "exactly the rows of the selected cells so far are selected", compare("==", env.this_mask.get(P[g]), SV(f(term(k))))
        job.loops = [LoopSpec(["count_name", "this_mask", "counts", "offsets"], inv, nth=None)]
        call(I, me, "_update_range_masks")
        for q, g in enumerate(names):
            a = me.attrs["_" + g]
            if range_mask:
                r = c.int("r")
                s = sel[g]
                c.oblige(compare("==", a.shape[0], s.count), f"one range per selected cell ({g})")
                z = SV(s.Z(r.t))
                inr = as_bool(land(r >= 0, r < s.count))
                c.oblige(z3.Implies(inr, as_bool(land(compare("==", a.get(r, 0), off[g].get(z)),
                                                      compare("==", a.get(r, 1), off[g].get(z) + cnt[g].get(z)), msk[g].get(z)))),
                         f"range r is the run of rows of the r-th selected cell ({g})")
                k = c.int("cell")
                kk = SV(s.inv(k.t))
                c.oblige(z3.Implies(as_bool(land(k >= 0, k < N, msk[g].get(k))), as_bool(land(
                    kk >= 0, kk < s.count, compare("==", a.get(kk, 0), off[g].get(k)), compare("==", a.get(kk, 1), off[g].get(k) + cnt[g].get(k))))),
                    f"every selected cell has its range ({g})")
                c.oblige(compare("==", me.attrs[f"_{g}_size"], known[q][2].total), f"the size is the number of rows selected ({g})")
            else:
                c.oblige(compare("==", a.shape[0], size[g]), f"one flag per row ({g})")
                c.oblige(compare("==", a.get(P[g]), SV(H[g][0](sel[g].count.t))), f"a row is selected iff a selected cell holds it ({g})")
    return job.run(body)


# ------------------------------------------------------------------ the cells of a region
def cell_mask_job(groupcat):
    """_generate_cell_mask: a cell is unselected only if none of its periodic images meets the region."""
    job = Job(f"_generate_cell_mask ({'group catalogue' if groupcat else 'snapshot'})", budget_s=200, feas_ms=800)
    job.max_paths = 8000

    def body(job, I, c):
        me, names, size = a_mask(c, groupcat, output_type="SOAP" if groupcat else "FULLBOX")
        names = ["shared"] if groupcat else GROUPS
        N = c.int("cells")
        c.assume(N >= 1)
        B = [c.real("box%d" % d) for d in range(3)]
        for b in B:
            c.assume(b > 0)
        me.attrs["metadata"].attrs["boxsize"] = SArr((3,), lambda i: V.ite(compare("==", i, 0), B[0], V.ite(compare("==", i, 1), B[1], B[2])) if is_sym(concrete(i)) else B[concrete(i)], "r", "boxsize")
        lo = {g: fresh_array("min_" + g, (N, 3)) for g in names}
        hi = {g: fresh_array("max_" + g, (N, 3)) for g in names}
        for g in names:
            lo[g].frozen = hi[g].frozen = True
        me.attrs.update(minpositions=dict(lo), maxpositions=dict(hi), centers=SArr((N, 3), lambda i, j: 0.0, "r", "centers"))
        L, U = [c.real("lower%d" % d) for d in range(3)], [c.real("upper%d" % d) for d in range(3)]
        flat = list(zip(L, U))
        # two axes are inside, to keep the number of cases small: the third takes every case
        ax = c.choose(3)
        for d in range(3):
            if d != ax:
                c.assume(land(L[d] >= 0, L[d] <= U[d], U[d] <= B[d]))
        region = SArr((3, 2), lambda i, j: flat[concrete(i)][concrete(j)], "r", "restrict")
        region.frozen = False
        cell = c.int("cell")
        c.assume(land(cell >= 0, cell < N))
        valid = land(*[land(L[d] >= -B[d] / 2, L[d] <= 3 * B[d] / 2, U[d] >= -B[d] / 2, U[d] <= 3 * B[d] / 2) for d in range(3)])
        try:
            r = call(I, me, "_generate_cell_mask", region)
        except ValueError:
            c.oblige(lnot(valid), "a region within half a box of the box is accepted")
            return
        c.oblige(valid, "a region outside [-box/2, 3 box/2] is rejected")
        c.oblige(set(r) == set(names), "there is a selection for every group")
        for g in names:
            m = r[g]
            c.oblige(compare("==", m.shape[0], N), f"one flag per cell ({g})")
            # one particle of the cell, inside the region through some periodic image
            x = [c.real("x%d" % d) for d in range(3)]
            t = [c.int("image%d" % d) for d in range(3)]
            inside = []
            for d in range(3):
                y = x[d] + SV(z3.ToReal(t[d].t)) * B[d]
                span = land(compare("<", L[d], y), compare("<", y, U[d]))
                s = c.int("turn%d" % d)
                # an inverted region is the interval taken through the boundary
                wrap = lor(land(compare("<", L[d] - B[d], y), compare("<", y, U[d])), land(compare("<", L[d], y), compare("<", y, U[d] + B[d])))
                inside.append(lor(compare(">", V.ite(L[d] <= U[d], U[d] - L[d], L[d] - U[d]), B[d]),
                                  ite(L[d] <= U[d], span, wrap)))
                inside.append(land(x[d] >= 0, x[d] <= B[d], x[d] >= lo[g].get(cell, d), x[d] <= hi[g].get(cell, d)))
                inside.append(land(t[d] >= -1, t[d] <= 1))
            c.oblige(z3.Implies(z3.And(*[as_bool(q) for q in inside]), as_bool(m.get(cell))),
                     f"the cell of a particle of the region is selected ({g})")
    return job.run(body)
