"""C05 at run time: subset files against the rows of the original."""
import warnings

import h5py
import numpy as np

import swiftsimio as sw
from swiftsimio.subset_writer import write_subset
from vlib import snap
from vlib.execlib import case, check
from vlib.maskx import all_rows, as_region, draw_region, draw_snapshot, mask_rows


def same_attrs(a, b, where, skip=()):
    for k in a.attrs:
        if k in skip:
            continue
        check(k in b.attrs, f"{where}: attribute {k} lost")
        x, y = np.asarray(a.attrs[k]), np.asarray(b.attrs[k])
        check(x.shape == y.shape and np.all(x == y), f"{where}: attribute {k} changed from {x} to {y}")


def walk(g, pre=""):
    for k in g:
        l = g.get(k, getlink=True)
        p = f"{pre}/{k}"
        if isinstance(l, h5py.SoftLink):
            yield p, "link", l.path
        elif isinstance(g[k], h5py.Group):
            yield p, "group", None
            yield from walk(g[k], p)
        else:
            yield p, "data", None


def consistent(f, g, sel, order, info, rename):
    """Check output file g against input f with selected rows per group, cells in written order."""
    items = list(walk(f))
    out = {p: (t, x) for p, t, x in walk(g)}
    for p, t, x in items:
        if p.startswith("/Cells/"):
            continue
        check(p in out, f"{t} {p} lost")
        check(out[p][0] == t, f"{p} is a {out[p][0]} instead of a {t}")
        if t == "link":
            check(out[p][1].strip("/") == x.strip("/"), f"link {p} points to {out[p][1]} instead of {x}")
    for p, t, x in items:
        top = p.split("/")[1]
        if t == "data" and top in sel:
            d, e = f[p], g[p]
            want = d[...][sel[top]]
            check(e.shape == want.shape, f"{p}: shape {e.shape} instead of {want.shape}")
            check(np.array_equal(e[...], want), f"{p}: rows differ from the selected rows")
            check(e.dtype.newbyteorder("=") == d.dtype.newbyteorder("="), f"{p}: dtype {e.dtype} instead of {d.dtype}")
            same_attrs(d, e, p)
        elif t == "data" and top != "Cells":
            check(np.array_equal(f[p][...], g[p][...]), f"{p} changed")
            same_attrs(f[p], g[p], p)
        elif t == "group" and top not in ("Cells", "Header", "Parameters"):
            same_attrs(f[p], g[p], p)


def cells_ok(f, g, sel, keys, offs_name):
    cen, ocen = g["Cells/Centres"][...], f["Cells/Centres"][...]
    # match output cells to input cells by centre
    idx = {tuple(np.round(c, 12)): i for i, c in enumerate(ocen)}
    check(cen.shape == ocen.shape, "number of cells changed")
    src = np.array([idx.get(tuple(np.round(c, 12)), -1) for c in cen])
    check(np.array_equal(np.sort(src), np.arange(len(ocen))), "cell centres are not a permutation of the original ones")
    same_attrs(f["Cells/Meta-data"], g["Cells/Meta-data"], "Cells/Meta-data")
    for key, rows_ in keys.items():
        c0, o0 = f[f"Cells/Counts/{key}"][...], f[f"Cells/{offs_name}/{key}"][...]
        c1, o1 = g[f"Cells/Counts/{key}"][...], g[f"Cells/{offs_name}/{key}"][...]
        check(c1.sum() == len(rows_), f"{key}: cell counts sum to {c1.sum()} for {len(rows_)} rows")
        check(np.array_equal(o1, np.r_[0, np.cumsum(c1)[:-1]]), f"{key}: offsets are not the running sum of the counts")
        for j, i in enumerate(src):
            mine = rows_[(rows_ >= o0[i]) & (rows_ < o0[i] + c0[i])]
            got = rows_[o1[j]:o1[j] + c1[j]]
            check(np.array_equal(mine, got), f"{key}: cell {i} should hold rows {mine.tolist()[:10]} but is recorded with {got.tolist()[:10]}")
        for b in ("MinPositions", "MaxPositions"):
            if f"Cells/{b}/{key}" in f:
                check(np.array_equal(g[f"Cells/{b}/{key}"][...], f[f"Cells/{b}/{key}"][...][src]), f"{b}/{key} does not follow the cell order")


@case(quick=45, thorough=600)
def snapshot_subset(rng, env):
    nested = bool(rng.random() < 0.3)
    info = draw_snapshot(rng, env.path("s.hdf5"), nested_links=nested)
    env.note(nested_links=nested)
    src, dst = env.path("s.hdf5"), env.path("o.hdf5")
    m = sw.mask(src)
    how = str(rng.choice(["spatial", "property", "both", "union", "none"]))
    reg = [draw_region(rng, info["box"]) for _ in range(2)]
    pts = [p for p in info["counts"] if info["counts"][p]]
    pt = int(rng.choice(pts))
    lo, hi = np.sort(rng.random(2)) + 0.1
    env.note(how=how, regions=reg, counts=info["counts"], dims=info["dims"], box=info["box"], prop=(snap.NAMES[pt], lo, hi), minmax=info["minmax"])
    if how in ("spatial", "both", "union"):
        m.constrain_spatial(as_region(reg[0], m))
    if how == "union":
        m.constrain_spatial(as_region(reg[1], m), union=True)
    if how in ("property", "both"):
        m.constrain_property(snap.NAMES[pt], "masses", lo * m.units.mass, hi * m.units.mass)
    present = [p for p in info["counts"] if hasattr(m, snap.NAMES[p])]
    sel = {f"PartType{p}": mask_rows(m, snap.NAMES[p]) for p in present}
    write_subset(dst, m, **({"allow_unconstrained": True} if how == "none" else {}))
    with h5py.File(src, "r") as f, h5py.File(dst, "r") as g:
        consistent(f, g, sel, None, info, None)
        offs = "OffsetsInFile" if "OffsetsInFile" in f["Cells"] else "Offsets"
        cells_ok(f, g, sel, sel, offs)
        same_attrs(f["Header"], g["Header"], "Header", skip=("NumPart_ThisFile", "OutputType"))
        same_attrs(f["Parameters"], g["Parameters"], "Parameters")
        want = [len(sel[f"PartType{i}"]) if f"PartType{i}" in sel else 0 for i in range(len(info["num"]))]
        got = np.asarray(g["Header"].attrs["NumPart_ThisFile"]).tolist()
        check(got == want, f"NumPart_ThisFile is {got} instead of {want}")
        ot = g["Header"].attrs["OutputType"]
        ot = ot.decode() if hasattr(ot, "decode") else ot
        check(ot == "VolumeSubset", f"output type {ot}")
    # the subset is a readable snapshot again and can itself be masked
    d = sw.load(dst)
    for p in present:
        if len(sel[f"PartType{p}"]):
            v = info["types"][p]["ParticleIDs"]["values"][sel[f"PartType{p}"]]
            check(np.array_equal(np.asarray(getattr(d, snap.NAMES[p]).particle_ids), v), "particle ids differ when read back")
    m2 = sw.mask(dst)
    r2 = draw_region(rng, info["box"])
    m2.constrain_spatial(as_region(r2, m2))
    from vlib.maskx import inside
    for p in present:
        rows_ = sel[f"PartType{p}"]
        if len(rows_):
            ins = np.where(inside(info["wrapped"][p][rows_], r2, info["box"]))[0]
            lost = np.setdiff1d(ins, mask_rows(m2, snap.NAMES[p]))
            check(len(lost) == 0, f"masking the subset loses particles of {snap.NAMES[p]}")


@case(quick=25, thorough=300)
def catalogue_subset(rng, env):
    n = int(rng.choice([1, 10, 50]))
    info = snap.build_soap(env.path("c.hdf5"), rng, n=n, dims=[int(x) for x in rng.integers(1, 4, 3)],
                           output_type=str(rng.choice(["SOAP", "SOAPSubset"])))
    src, dst = env.path("c.hdf5"), env.path("o.hdf5")
    m = sw.mask(src)
    how = str(rng.choice(["spatial", "indices", "property"]))
    reg = draw_region(rng, info["box"])
    ix = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
    env.note(n=n, how=how, region=reg, indices=ix)
    if how == "spatial":
        m.constrain_spatial(as_region(reg, m))
    elif how == "indices":
        m.constrain_indices(ix)
    else:
        m.constrain_property("bound_subhalo", "total_mass", 0.3 * m.units.mass, 0.8 * m.units.mass)
    rows_ = mask_rows(m, "soap")
    write_subset(dst, m)
    with h5py.File(src, "r") as f, h5py.File(dst, "r") as g:
        consistent(f, g, {k: rows_ for k in ("BoundSubhalo", "InputHalos", "SO", "SOAP")}, None, info, None)
        cells_ok(f, g, None, {"Subhalos": rows_}, "OffsetsInFile")
        got = int(np.asarray(g["Header"].attrs["NumSubhalos_ThisFile"]).ravel()[0])
        check(got == len(rows_), f"NumSubhalos_ThisFile is {got} for {len(rows_)} rows")
        same_attrs(f["Header"], g["Header"], "Header", skip=("NumSubhalos_ThisFile", "OutputType"))
    if len(rows_):
        d = sw.load(dst)
        check(np.array_equal(np.asarray(d.input_halos.halo_catalogue_index), info["fields"]["InputHalos/HaloCatalogueIndex"]["values"][rows_]), "rows differ when read back")


@case(quick=4, thorough=10)
def unconstrained_needs_permission(rng, env):
    snap.build(env.path("s.hdf5"), rng, counts={0: 5}, minmax=True)
    m = sw.mask(env.path("s.hdf5"))
    try:
        write_subset(env.path("o.hdf5"), m)
    except ValueError:
        return
    check(False, "an unconstrained mask was written without permission")
