"""Contracts of the writer of subsets (C05)."""
import ast

import h5py
import z3

from checks import rows
from checks.h5tree import Tree, groups, paths
from checks.handles import mod, model
from checks.reading import bound
from checks.maskp import Rec, a_mask, call
from pyvc import values as V
from pyvc.arrays import SArr, fresh_array
from pyvc.interp import SymObj, funcval
from pyvc.job import Job, LoopSpec
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, concrete, is_sym, ite, land, lor, mk, term


# ------------------------------------------------------------------ counts and offsets of the cells of a subset
def a_partition(c, g, N, size):
    """Cells that partition the rows: N runs in file order, each starting where the one before ends."""
    C, O = c.func("count_" + g, "i", "i"), c.func("offset_" + g, "i", "i")
    cnt = SArr((N,), lambda k: SV(C(term(k))), "i", "counts")
    off = SArr((N,), lambda k: SV(O(term(k))), "i", "offsets")
    cnt.frozen = off.frozen = True
    c.assume(land(SV(O(0)) == 0, SV(O(N.t - 1)) + SV(C(N.t - 1)) == size))

    def at(x):
        """What is known of cell x (and the next)."""
        x = term(x)
        c.assume(z3.Implies(z3.And(x >= 0, x < N.t), z3.And(C(x) >= 0, O(x) >= 0, O(x) + C(x) <= term(size))))
        c.assume(z3.Implies(z3.And(x >= 0, x + 1 < N.t), O(x) + C(x) == O(x + 1)))
    # offsets ascend: by induction over the distance
    i, j = z3.Ints("i!k j!k")
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < N.t), O(i) <= O(j)), patterns=[z3.MultiPattern(O(i), O(j))]))
    return cnt, off, C, O, at


def clamp(x, s, e):
    """Rows of [s, e) below x."""
    return z3.If(x <= s, 0, z3.If(x >= e, e - s, x - s))


class Counts:
    """The selection of one group: P(k, x) = rows below x in the first k ranges, at the two ends of one arbitrary cell X."""

    def __init__(self, c, g, N, size):
        self.g, self.c = g, c
        self.cnt, self.off, self.C, self.O, self.at = a_partition(c, g, N, size)
        self.R = rows.Ranges(c, name="ranges_" + g, upper=size)
        self.X = c.int("cell_" + g)
        c.assume(land(self.X >= 0, self.X < N))
        self.at(self.X)
        x = self.X.t
        self.lo, self.hi = self.O(x), self.O(x) + self.C(x)
        self.PA, self.PB = c.func("below_start_" + g, "i", "i"), c.func("below_end_" + g, "i", "i")
        c.assume(z3.And(self.PA(0) == 0, self.PB(0) == 0))

    def unfold(self, k):
        k = term(k)
        s, e = self.R.F(k, 0), self.R.F(k, 1)
        self.c.assume(z3.Implies(z3.And(k >= 0, k < self.R.m.t), z3.And(self.PA(k + 1) == self.PA(k) + clamp(self.lo, s, e),
                                                                       self.PB(k + 1) == self.PB(k) + clamp(self.hi, s, e))))

    def selected(self, k):
        return SV(self.PB(term(k)) - self.PA(term(k)))

    def overlap(self, k):
        k = term(k)
        s, e = self.R.F(k, 0), self.R.F(k, 1)
        return SV(clamp(self.hi, s, e) - clamp(self.lo, s, e))


def searchsorted(job, points):
    """np.searchsorted on an ascending array (an obligation): entry w counts the elements below (side left) or not above
    (side right) the value. What that says is made known of the positions `points`."""
    def f(a, v, side):
        c = V.ctx()
        job.assumed.add("contract:numpy.searchsorted on an ascending array")
        if a.ndim != 1:
            raise Unsupported("searchsorted")
        M, s, t = a.shape[0], c.int("s"), c.int("t")
        af, vf = a.snapshot(), v.snapshot()
        c.oblige(z3.Implies(as_bool(land(s >= 0, s < t, t < M)), as_bool(compare("<=", af(s), af(t)))), "searchsorted gets an ascending array", kind="pre")
        W = c.func("position", *["i"] * v.ndim, "i")

        def at(*ix):
            ix = [term(i) for i in ix]
            w = W(*ix)
            val = vf(*[SV(i) for i in ix])
            c.assume(z3.And(w >= 0, w <= term(M)))
            for q in points:
                q = term(q)
                c.assume(z3.Implies(z3.And(q >= 0, q < term(M)), (q < w) == as_bool(compare("<=" if side == "right" else "<", af(SV(q)), val))))
            return SV(w)
        return SArr(v.shape, at, "i", "positions")
    job.searchsorted = f


def accumulator(env, key, N):
    """The array in which the counts of a group are collected: the entry `key` of a dictionary, or the one array filled here."""
    out = []
    for v in env._fr.locals.values():
        if isinstance(v, dict):
            v = v.get(key)
        if isinstance(v, SArr) and v.ndim == 1 and not v.frozen and v.dt == "i" and not any(v is x for x in out) and \
                rows.as_same(V.ctx(), v.shape[0], N):
            out.append(v)
    if len(out) != 1:
        raise CannotAttach("the array of counts")
    return out[0]


def counts_job(shared):
    """Per cell: the rows of the mask in it; offsets: the running sum of the counts."""
    job = Job(f"_get_masked_counts_offsets ({'shared' if shared else 'per group'}, ranges)", budget_s=120)

    def body(job, I, c):
        me, names, size = a_mask(c, shared)
        N = c.int("cells")
        c.assume(N >= 1)
        G = {g: Counts(c, g, N, size[g]) for g in names}
        for g in names:
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = G[g].R.arr, c.int("size")
        me.attrs.update(counts={g: G[g].cnt for g in names}, offsets={g: G[g].off for g in names})
        searchsorted(job, [q for g in names for q in (G[g].X - 1, G[g].X)])
        state = dict(g=-1, k=None, first=None, depth=0)

        def finished(env):
            for g in names[:state["g"]]:
                a = accumulator(env, g, N)
                yield f"the counts of {g} stay", land(compare("==", a.shape[0], N), compare("==", a.get(G[g].X), G[g].selected(G[g].R.m)))

        def outer_inv(env, k):
            g = G[names[state["g"]]]
            g.unfold(k)
            state["k"] = k
            state["depth"] = 1 if state["depth"] in (0, 3) else state["depth"]
            a = accumulator(env, g.g, N)
            yield "the array has an entry per cell", compare("==", a.shape[0], N)
            yield "the count of a cell is the number of its rows in the ranges so far", compare("==", a.get(g.X), g.selected(k))
            yield from finished(env)

        def inner_inv(env, k):
            g = G[names[state["g"]]]
            a = accumulator(env, g.g, N)
            first = state["first"]
            yield "the array has an entry per cell", compare("==", a.shape[0], N)
            yield "the cells seen have got their rows of this range", \
                compare("==", a.get(g.X), g.selected(state["k0"]) + ite(land(g.X >= first, g.X < first + k), g.overlap(state["k0"]), 0))
            yield from finished(env)
        outer, inner = LoopSpec([], outer_inv), LoopSpec([], inner_inv)

        def spec(I, node, fr):
            if not isinstance(node, ast.For):
                return None
            ranged = isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == "range"
            if ranged:
                if state["depth"] != 1 or len(node.iter.args) != 2:
                    raise CannotAttach("the loop over the cells of a range")
                state.update(first=I.eval(node.iter.args[0], fr), k0=state["k"])
                return inner
            state.update(g=state["g"] + 1, depth=1)
            if state["g"] >= len(names):
                raise CannotAttach("one loop per group")
            return outer
        job.loop_spec = spec
        steps = []
        cs = Job.cumsum

        def cumsum(a):
            r = cs(job, a)
            n, f = a.shape[0], a.snapshot()
            steps.append(lambda i: c.assume(z3.Implies(as_bool(land(i >= 1, i < n)), term(r.get(i)) == term(r.get(i - 1)) + term(f(i)))))
            return r
        job.cumsum = cumsum
        counts, offsets = call(I, me, "_get_masked_counts_offsets")
        c.oblige(set(counts) == set(names) and set(offsets) == set(names), "every group has its counts and offsets")
        for g in names:
            X = G[g].X
            n, o = counts[g], offsets[g]
            c.oblige(land(compare("==", n.shape[0], N), compare("==", o.shape[0], N)), f"one count and one offset per cell ({g})")
            c.oblige(compare("==", n.get(X), G[g].selected(G[g].R.m)), f"the count of a cell is the number of its rows in the mask ({g})")
            for st in steps:
                st(X)
            c.oblige(compare("==", o.get(0), 0), f"the first cell starts at the first row ({g})")
            c.oblige(z3.Implies(as_bool(X + 1 < N), as_bool(compare("==", o.get(X + 1), o.get(X) + n.get(X)))), f"a cell starts where the one before ends ({g})")
    return job.run(body)


def telescope_job():
    """What the contract above adds up to: the rows of cell X are those from its offset on, and all cells together hold the
    selected rows. T(k, x): rows below x in the first k ranges."""
    job = Job("counts per cell describe the file", budget_s=60)

    def body(job, I, c):
        g = "gas"
        N, size = c.int("cells"), c.int("rows")
        c.assume(land(N >= 1, size >= 0))
        cnt, off, C, O, at = a_partition(c, g, N, size)
        T = c.func("below", "i", "i")          # below(x) for all ranges
        o = c.func("offset_in_subset", "i", "i")
        x = c.int("cell")
        c.assume(land(x >= 0, x < N))
        at(x)
        n = lambda q: T(O(q) + C(q)) - T(O(q))
        c.assume(z3.And(o(0) == 0, z3.Implies(x.t + 1 < N.t, o(x.t + 1) == o(x.t) + n(x.t))))
        # no row is below row 0
        R = rows.Ranges(c, name="ranges", upper=size)
        S, k = c.func("below_row", "i", "i", "i"), c.int("k")
        L = c.func("lengths", "i", "i")
        c.assume(z3.And(S(0, 0) == 0, S(0, size.t) == 0, L(0) == 0))
        c.assume(land(k >= 0, k < R.m))
        s, e = R.F(k.t, 0), R.F(k.t, 1)
        for q in (z3.IntVal(0), size.t):
            c.assume(S(k.t + 1, q) == S(k.t, q) + clamp(q, s, e))
        c.assume(L(k.t + 1) == L(k.t) + e - s)
        c.oblige(z3.Implies(S(k.t, 0) == 0, S(k.t + 1, 0) == 0), "no row is below the first (induction step)", kind="lemma")
        c.oblige(z3.Implies(S(k.t, size.t) == L(k.t), S(k.t + 1, size.t) == L(k.t + 1)), "all selected rows are below the end (induction step)", kind="lemma")
        c.assume(z3.And(T(0) == 0))
        c.oblige(o(0) == T(O(0)), "the rows of the first cell start at the first row")
        c.oblige(z3.Implies(z3.And(o(x.t) == T(O(x.t)), x.t + 1 < N.t), o(x.t + 1) == T(O(x.t + 1))),
                 "the rows of a cell start where the selected rows of the cells before end (induction step)")
        c.oblige(z3.Implies(z3.And(x.t + 1 == N.t, o(x.t) == T(O(x.t))), o(x.t) + n(x.t) == T(size.t)), "the counts add up to the number of rows selected")
    return job.run(body)


def counts_bool_job(shared):
    """The same for a mask in boolean form: F(a, b) is the number of rows set in [a, b)."""
    job = Job(f"_get_masked_counts_offsets ({'shared' if shared else 'per group'}, boolean)", budget_s=60)

    def body(job, I, c):
        me, names, size = a_mask(c, shared, range_mask=False)
        N = c.int("cells")
        c.assume(N >= 1)
        data, flags, F, X = {}, {}, {}, {}
        for g in names:
            data[g] = a_partition(c, g, N, size[g])
            flags[g], F[g], X[g] = c.func("flag_" + g, "i", "b"), c.func("set_in_" + g, "i", "i", "i"), c.int("cell_" + g)
            c.assume(land(X[g] >= 0, X[g] < N))
            data[g][4](X[g])
            me.attrs["_" + g] = SArr((size[g],), lambda k, f=flags[g]: SV(f(term(k))), "b", "flags")
            me.attrs["_" + g].frozen = True
            me.attrs[f"_{g}_size"] = size[g]
        me.attrs.update(counts={g: data[g][0] for g in names}, offsets={g: data[g][1] for g in names})

        def total(x):
            """sum of a run of flags: the run is found from its element, that it is one is an obligation."""
            if not (isinstance(x, SArr) and x.ndim == 1 and x.dt == "b"):
                return None
            k = c.int("any")
            t = as_bool(x.get(k))
            for g in names:
                if z3.is_app(t) and t.decl().eq(flags[g]):
                    a = z3.simplify(t.arg(0) - k.t)
                    if "any" in str(a) and str(k.t) in str(a):
                        raise Unsupported("sum of something else than a run of flags")
                    return SV(F[g](a, a + term(x.shape[0])))
            return None
        job.sum_hook = total
        steps = []
        cs = Job.cumsum

        def cumsum(a):
            r = cs(job, a)
            n, f = a.shape[0], a.snapshot()
            steps.append(lambda i: c.assume(z3.Implies(as_bool(land(i >= 1, i < n)), term(r.get(i)) == term(r.get(i - 1)) + term(f(i)))))
            return r
        job.cumsum = cumsum
        counts, offsets = call(I, me, "_get_masked_counts_offsets")
        for g in names:
            n, o, x = counts[g], offsets[g], X[g]
            C, O = data[g][2], data[g][3]
            c.oblige(land(compare("==", n.shape[0], N), compare("==", o.shape[0], N)), f"one count and one offset per cell ({g})")
            c.oblige(compare("==", n.get(x), SV(F[g](O(x.t), O(x.t) + C(x.t)))), f"the count of a cell is the number of its rows in the mask ({g})")
            for st in steps:
                st(x)
                st(x + 1)
            c.oblige(compare("==", o.get(0), 0), f"the first cell starts at the first row ({g})")
            c.oblige(z3.Implies(as_bool(x + 1 < N), as_bool(compare("==", o.get(x + 1), o.get(x) + n.get(x)))), f"a cell starts where the one before ends ({g})")
    return job.run(body)


# ------------------------------------------------------------------ the file written
def a_snapshot(T, c, shape):
    """The contents of a snapshot or catalogue; -> (file, {group: rows}, metadata attributes)."""
    data = lambda name, *sh: fresh_array(name, sh, "r")
    n = {g: c.int("n_" + g) for g in ("gas", "dark_matter")}
    for v in n.values():
        c.assume(v >= 0)
    N = c.int("cells")
    c.assume(N >= 1)
    anyval = lambda s: SymObj(Rec, {}, name=s)
    at = lambda *names: {k: anyval(k) for k in names}

    def ds(name, *sh, **attrs):
        d = data(name, *sh)
        d.frozen = True
        return T.dataset(d, {**at("U_L exponent", "a-scale exponent", "Description"), **attrs}, dtype=anyval("dtype of " + name), name=name)
    soap = shape == "soap"
    ptypes = ["Subhalos"] if soap else ["PartType0"] if shape == "gas only" else ["PartType0", "PartType1"]
    size = {"Subhalos": n["gas"], "PartType0": n["gas"], "PartType1": n["dark_matter"]}
    off = "OffsetsInFile" if shape in ("full", "subset") else "Offsets"
    cells = {"Centres": ds("centres", N, 3), "Counts": T.group({p: ds("counts " + p, N) for p in ptypes}), off: T.group({p: ds("offsets " + p, N) for p in ptypes}),
             "Meta-data": T.group({}, at("dimension", "size", "nr_cells")), "Files": T.group({p: ds("files " + p, N) for p in ptypes})}
    if shape in ("full", "gas only"):
        for k in ("MinPositions", "MaxPositions"):
            cells[k] = T.group({p: ds(k + p, N, 3) for p in ptypes})
    types = {"full": "FullVolume", "gas only": "FullVolume", "subset": "VolumeSubset", "soap": "SOAP"}[shape]
    as_bytes = c.choose(2)
    numpart = [0 if soap else n["gas"], 0 if soap or shape == "gas only" else n["dark_matter"], 0, 0]
    head = {**at("BoxSize", "Redshift", "Scale-factor", "MassTable", "Code"), "NumPart_ThisFile": numpart, "OutputType": types.encode() if as_bytes else types}
    if soap:
        head["NumSubhalos_ThisFile"] = [n["gas"]]
    top = {"Header": T.group({}, head), "Cells": T.group(cells), "Units": T.group({}, at("Unit mass", "Unit length")), "Cosmology": T.group({}, at("Omega_m", "h")),
           "Parameters": T.group({}, at("MetaData:run_name", "Scheduler:max_top_level_cells")), "Code": T.group({"Version": T.group({}, at("tag"))}, at("Code")),
           "SubgridScheme": T.group({"NamedColumns": T.group({"ElementMassFractions": ds("columns", 9)})}, at("Cooling"))}
    if soap:
        top["BoundSubhalo"] = T.group({"TotalMass": ds("total mass", n["gas"]), "CentreOfMass": ds("com", n["gas"], 3)}, at("Masked"))
        top["SO"] = T.group({"200_crit": T.group({"TotalMass": ds("mass 200", n["gas"])}), "50_kpc": T.group({"Radius": ds("radius", n["gas"])})})
        top["InputHalos"] = T.group({"HaloCentre": ds("centre", n["gas"], 3), "HBTplus": T.group({"TrackId": ds("track", n["gas"])})})
        top["BoundSubhaloProperties"] = h5py.SoftLink("/BoundSubhalo")
        groups_ = ["BoundSubhalo", "SO/200_crit", "SO/50_kpc", "InputHalos", "InputHalos/HBTplus"]
    else:
        top["PartType0"] = T.group({"Coordinates": ds("x0", n["gas"], 3), "Masses": ds("m0", n["gas"]), "ParticleIDs": ds("i0", n["gas"]), "ElementMassFractions": ds("e0", n["gas"], 9),
                                    "Positions": h5py.SoftLink("/PartType0/Coordinates")}, at("NumberOfParticles", "Fields"))
        top["GasParticles"] = h5py.SoftLink("/PartType0")
        groups_ = ["PartType0"]
        if shape != "gas only":
            top["PartType1"] = T.group({"Coordinates": ds("x1", n["dark_matter"], 3), "Masses": ds("m1", n["dark_matter"])})
            top["DMParticles"] = h5py.SoftLink("/PartType1")
            top["PartTypeMasses"] = h5py.SoftLink("/PartType1/Masses")
            groups_.append("PartType1")
    return T.file(top, readonly=True), size, n, N, groups_, ptypes, off, types


SHAPES = ["full", "gas only", "subset", "soap"]


def written_job(shape):
    """write_subset on a file of arbitrary contents: every dataset, attribute and link of the new file."""
    job = Job(f"write_subset, contents ({shape})", budget_s=100)

    def body(job, I, c):
        job.used_bound = True       # the names in the file are those of a_snapshot; contents, sizes and selections are arbitrary
        M = mod("swiftsimio.subset_writer")
        T = Tree(c, I)
        infile, size, n, N, present, ptypes, off, otype = a_snapshot(T, c, shape)
        shared = shape == "soap"
        me, names, _ = a_mask(c, shared)
        meta = me.attrs["metadata"]
        pyname = {"PartType0": "gas", "PartType1": "dark_matter", "Subhalos": "shared"}
        meta.attrs.update(present_groups=list(present), present_group_names=[pyname.get(p, p.lower()) for p in present], output_type=otype)
        meta.attrs["open_file"] = model(lambda: infile)
        me.attrs["constrained"] = "constrain_spatial"
        used = [pyname[p] for p in ptypes]
        sel, m, tok = {}, {}, {}
        for g in used:
            sel[g], m[g] = SymObj(Rec, {}, name="ranges of " + g), c.int("selected_" + g)
            c.assume(m[g] >= 0)
            me.attrs["_" + g], me.attrs[f"_{g}_size"] = sel[g], m[g]
            tok[g] = (fresh_array("new_counts", (N,), "i"), fresh_array("new_offsets", (N,), "i"))
        order = fresh_array("cell_sort", (N,), "i")
        q = z3.Int("q!o")
        at_q = term(order.get(SV(q)))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N.t), z3.And(at_q >= 0, at_q < N.t)), patterns=[at_q]))
        me.attrs["cell_sort"] = order
        me.attrs["convert_masks_to_ranges"] = model(lambda: None)
        me.attrs["_get_masked_counts_offsets"] = model(lambda: ({g: tok[g][0] for g in used}, {g: tok[g][1] for g in used}))
        owner = {}
        indata, inlinks = paths(infile)
        for p in indata:
            q = p.split("/")[1]
            if not shared and q in ptypes:
                owner[p] = pyname[q]
            elif shared and q in ("BoundSubhalo", "SO", "InputHalos"):
                owner[p] = "shared"
        by_id = {id(d): p for p, d in indata.items()}

        def read(I, fv, args, kw):
            b = I.bind(fv, args, kw)
            d = b["handle"]
            job.assumed.add("contract:" + fv.qual + " (C01)")
            p = by_id.get(id(d))
            c.oblige(p in owner, "rows are read from the datasets of groups", kind="pre")
            g = owner[p]
            c.oblige(b["ranges"] is sel[g], f"the rows of {p} are those of the mask of its group", kind="pre")
            sh = tuple(b["output_shape"])
            c.oblige(compare("==", sh[0], m[g]) if len(sh) else False, f"as many rows of {p} as are selected", kind="pre")
            c.oblige(len(sh) == len(d.attrs["data"].shape) and all(x == y for x, y in zip(sh[1:], d.attrs["data"].shape[1:])), f"all columns of {p}", kind="pre")
            c.oblige(b["output_type"] is d.attrs["dtype"], f"the type of {p} is kept", kind="pre")
            return SymObj(Rec, {"of": p, "shape": sh}, name="rows")
        job.contracts[funcval(rows.get("read_ranges_from_file")).qual] = read
        out = []

        def opener(name=None, mode="r", *a, **k):
            c.oblige(mode in ("w", "w-", "x"), "the subset is a new file", kind="pre")
            out.append(T.file())
            return out[-1]
        I.class_models[h5py.File] = opener
        I.call(funcval(M.write_subset), ["/data/out.hdf5", me], {})
        if len(out) != 1:
            raise CannotAttach("one file is written")
        new = out[0]
        outdata, outlinks = paths(new)
        for p, g in owner.items():
            d = outdata.get(p)
            c.oblige(d is not None and isinstance(d.attrs["data"], SymObj) and d.attrs["data"].attrs.get("of") == p, f"{p} holds its selected rows")
            if d is not None:
                same_attrs(c, d, indata[p], p)
        for p, d in indata.items():
            if p in owner or p.startswith("/Cells"):
                continue
            q = outdata.get(p)
            c.oblige(q is not None and q.attrs["data"] is d.attrs["data"], f"{p} is kept")
            if q is not None:
                same_attrs(c, q, d, p)
        c.oblige(outlinks == inlinks, "the soft links are those of the original")
        for p, g0 in groups(infile):
            if p.startswith("/Cells/Files") or (p.startswith("/Cells") and not p.startswith("/Cells/Meta-data")) or p == "":
                continue
            q = new.attrs["find"](p)
            c.oblige(q is not None and "children" in q.attrs, f"the group {p} is kept")
            if q is None or p in ("/Header", "/Parameters") or any(p == "/" + x or p.startswith("/" + x.split("/")[0]) for x in present):
                continue
            same_attrs(c, q, g0, p)
        extra = [p for p in outdata if p not in indata]
        c.oblige(not extra, f"nothing is invented {extra}")
        # cells
        for p in ptypes:
            g = pyname[p]
            for what, t, k in ((f"/Cells/Counts/{p}", tok[g][0], "counts"), (f"/Cells/{off}/{p}", tok[g][1], "offsets")):
                d = outdata.get(what)
                c.oblige(d is not None and d.attrs["data"] is t, f"the {k} of {p} are those of the mask")
        cell = c.int("cell")
        c.assume(land(cell >= 0, cell < N))
        for what in ["/Cells/Centres"] + [f"/Cells/{k}/{p}" for k in ("MinPositions", "MaxPositions") for p in ptypes if f"/Cells/{k}/{p}" in indata]:
            d = outdata.get(what)
            c.oblige(d is not None, f"{what} is kept")
            if d is None:
                continue
            now, was = d.attrs["data"], indata[what].attrs["data"]
            ok = isinstance(now, SArr) and now.ndim == 2
            c.oblige(ok, f"{what} has a row per cell")
            if ok:
                c.oblige(compare("==", now.shape[0], N), f"{what} has a row per cell")
                for j in range(3):
                    c.oblige(compare("==", now.get(cell, j), was.get(order.get(cell), j)), f"{what} is in the order of the counts")
            same_attrs(c, d, indata[what], what)
        # header
        h, h0 = (f.attrs["find"]("/Header").attrs["attrs"].attrs["d"] for f in (new, infile))
        c.oblige(set(h) == set(h0), "no header entry is lost")
        for k, v in h0.items():
            if k == "NumPart_ThisFile":
                x = list(h[k])
                c.oblige(len(x) == len(v), "a number for every type")
                for i, (a, b) in enumerate(zip(x, v)):
                    want = m[pyname[f"PartType{i}"]] if f"PartType{i}" in ptypes else 0
                    if not shared:
                        c.oblige(compare("==", a, ite(compare("==", b, 0), 0, want) if is_sym(b) else 0 if b == 0 else want), f"the number of PartType{i} is that of the rows selected")
            elif k == "NumSubhalos_ThisFile":
                c.oblige(len(h[k]) == 1 and bool(compare("==", h[k][0], m["shared"]) is True or h[k][0] is m["shared"] or c.entails(as_bool(compare("==", h[k][0], m["shared"])))), "the number of subhalos is that of the rows selected")
            elif k == "OutputType":
                x = h[k].decode() if isinstance(h[k], bytes) else h[k]
                c.oblige(x == {"FullVolume": "VolumeSubset", "VolumeSubset": "VolumeSubset", "SOAP": "SOAPSubset"}[otype], "the output type says that this is a subset")
            else:
                c.oblige(h[k] is v, f"header entry {k} is kept")
        h, h0 = (f.attrs["find"]("/Parameters").attrs["attrs"].attrs["d"] for f in (new, infile))
        c.oblige(set(h) == set(h0) and all(h[k] is v for k, v in h0.items()), "no parameter is lost")
    return job.run(body)


def same_attrs(c, d, d0, p):
    a, b = d.attrs["attrs"].attrs["d"], d0.attrs["attrs"].attrs["d"]
    c.oblige(set(a) == set(b) and all(a[k] is b[k] for k in b), f"the attributes of {p} are kept")
