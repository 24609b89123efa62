"""C03 at run time: no particle of the region is lost by a spatial mask."""
import numpy as np

import swiftsimio as sw
from vlib import snap
from vlib.execlib import case, check
from vlib.maskx import all_rows, as_region, draw_region, draw_snapshot, inside, mask_rows
from checks.x_c01 import rows


@case(quick=120, thorough=2500)
def region_is_covered(rng, env):
    info = draw_snapshot(rng, env.path("s.hdf5"))
    m = sw.mask(env.path("s.hdf5"))
    reg = draw_region(rng, info["box"])
    unit = "kpc" if rng.random() < 0.3 else None
    env.note(box=info["box"], dims=info["dims"], counts=info["counts"], region=reg, minmax=info["minmax"], unit=unit, a=info["a"])
    m.constrain_spatial(as_region(reg, m, unit))
    n_in = 0
    for pt, n in info["counts"].items():
        if not n:
            continue
        g = snap.NAMES[pt]
        sel = mask_rows(m, g)
        ins = np.where(inside(info["wrapped"][pt], reg, info["box"]))[0]
        n_in += len(ins)
        lost = np.setdiff1d(ins, sel)
        check(len(lost) == 0, f"{g}: particle(s) {lost.tolist()[:5]} at {info['wrapped'][pt][lost[:2]].tolist()} lie in the region "
                              f"{reg} but are not selected")
        check(np.all(np.diff(sel) > 0), f"{g}: selected rows are not in file order: {sel.tolist()[:30]}")
        check(len(sel) == 0 or (sel[0] >= 0 and sel[-1] < n), f"{g}: rows out of bounds")
        check(int(getattr(m, g + "_size")) == len(sel), f"{g}: recorded size {getattr(m, g + '_size')} for {len(sel)} rows")
        # whole cells only
        cell = info["cells"][pt]["which"]
        chosen = np.unique(cell[sel])
        check(np.array_equal(np.where(np.isin(cell, chosen))[0], sel), f"{g}: part of a cell is selected")
        # something is excluded: a cell far from the region is not selected
        if all(r is None for r in reg):
            check(len(sel) == n, "an unconstrained region must keep every row")
    if not n_in:
        env.trivial()


@case(quick=40, thorough=600)
def far_cells_are_dropped(rng, env):
    """A cell whose extent, padded, cannot touch the region is left out: the mask is not the whole file."""
    mm = bool(rng.random() < 0.5)
    info = snap.build(env.path("s.hdf5"), rng, counts={0: 120}, dims=(6, 5, 7), box=(1.0, 1.0, 1.0), minmax=mm, drift=0.05, empty_cells=0.0)
    m = sw.mask(env.path("s.hdf5"))
    a = rng.uniform(-0.4, 1.2, 3)
    reg = [(float(x), float(x + 0.1)) for x in a]
    env.note(region=reg, minmax=mm)
    m.constrain_spatial(as_region(reg, m))
    sel = mask_rows(m, "gas")
    size = info["size"]
    cell = info["cells"][0]["which"]
    cen = info["centres"][cell]
    far = np.zeros(len(cell), bool)
    for ax in range(3):
        d = np.abs((cen[:, ax] - (a[ax] + 0.05) + 0.5) % 1.0 - 0.5)
        far |= d > 0.05 + size[ax] * 0.5 + 0.21 * size[ax]
    check(not far[sel].any(), "cells that cannot contain particles of the region are selected")


@case(quick=40, thorough=400)
def bad_regions_are_rejected(rng, env):
    info = snap.build(env.path("s.hdf5"), rng, counts={0: 20}, dims=(2, 2, 2), minmax=True)
    m = sw.mask(env.path("s.hdf5"))
    ax = int(rng.integers(0, 3))
    reg = [None, None, None]
    kind = str(rng.choice(["low", "high", "len", "row"]))
    before = mask_rows(m, "gas")
    env.note(kind=kind, axis=ax)
    if kind in ("low", "high"):
        bad = -0.5 - rng.uniform(0.001, 3) if kind == "low" else 1.5 + rng.uniform(0.001, 3)
        good = rng.uniform(-0.5, 1.5)
        r = [bad, good] if rng.random() < 0.5 else [good, bad]
        env.note(bounds=r)
        reg[ax] = r
        arg = as_region([None if x is None else tuple(x) for x in reg], m)
    elif kind == "len":
        arg = as_region([(0.1, 0.2)] * int(rng.choice([1, 2, 4])), m)
    else:
        arg = as_region([(0.1, 0.2)] * 3, m)
        arg[ax] = arg[ax][:1] if rng.random() < 0.5 else arg[ax] + arg[ax][:1]
    try:
        m.constrain_spatial(arg)
    except ValueError:
        check(np.array_equal(before, mask_rows(m, "gas")), "a rejected region changed the mask")
        return
    check(False, f"invalid region ({kind}) was accepted")


@case(quick=30, thorough=500)
def soap_region_is_covered(rng, env):
    n = int(rng.choice([1, 5, 40, 100]))
    dims = [int(x) for x in rng.integers(1, 5, 3)]
    info = snap.build_soap(env.path("c.hdf5"), rng, n=n, dims=dims, output_type=str(rng.choice(["SOAP", "SOAPSubset"])))
    m = sw.mask(env.path("c.hdf5"))
    reg = draw_region(rng, info["box"])
    env.note(n=n, dims=dims, region=reg)
    m.constrain_spatial(as_region(reg, m))
    sel = mask_rows(m, "bound_subhalo")
    ins = np.where(inside(info["pos"], reg, info["box"]))[0]
    lost = np.setdiff1d(ins, sel)
    check(len(lost) == 0, f"objects {lost.tolist()[:5]} in the region are not selected")
    check(np.array_equal(sel, mask_rows(m, "input_halos")), "groups of a catalogue do not share the mask")
    check(np.all(np.diff(sel) > 0), "rows not in file order")
