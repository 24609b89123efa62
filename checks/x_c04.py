"""C04 at run time: combinations of constraints."""
import numpy as np
import unyt

import swiftsimio as sw
from vlib import snap
from vlib.execlib import case, check
from vlib.maskx import all_rows, as_region, draw_region, draw_snapshot, mask_rows


def spatial(path, regs, conv=None, **kw):
    m = sw.mask(path)
    for i, r in enumerate(regs):
        m.constrain_spatial(as_region(r, m), **({"union": True} if i else {}))
        if conv and i < len(regs) - 1:
            conv(m)
    return m


@case(quick=60, thorough=1000)
def union_is_union(rng, env):
    info = draw_snapshot(rng, env.path("s.hdf5"))
    k = int(rng.integers(2, 4))
    regs = [draw_region(rng, info["box"] * 1.0) for _ in range(k)]
    conv = str(rng.choice(["none", "none", "bool", "ranges", "boolranges"]))
    env.note(regions=regs, convert_between=conv, counts=info["counts"], dims=info["dims"], box=info["box"])
    f = {"none": None, "bool": lambda m: m.convert_masks_to_bool(), "ranges": lambda m: m.convert_masks_to_ranges(),
         "boolranges": lambda m: (m.convert_masks_to_bool(), m.convert_masks_to_ranges())}[conv]
    p = env.path("s.hdf5")
    m = spatial(p, regs, f)
    single = [spatial(p, [r]) for r in regs]
    for pt, n in info["counts"].items():
        if n:
            g = snap.NAMES[pt]
            want = np.unique(np.concatenate([mask_rows(s, g) for s in single]))
            got = mask_rows(m, g)
            check(np.array_equal(got, want), f"{g}: union selects {got.tolist()[:20]}... ({len(got)} rows) instead of {len(want)} rows")
            if np.asarray(getattr(m, g)).dtype != bool:
                check(int(getattr(m, g + "_size")) == len(want), f"{g}: recorded size is not the number of rows")


@case(quick=60, thorough=1000)
def property_keeps_exactly(rng, env):
    info = draw_snapshot(rng, env.path("s.hdf5"))
    p = env.path("s.hdf5")
    pts = [x for x in info["counts"] if info["counts"][x]]
    m = sw.mask(p)
    if rng.random() < 0.6:
        reg = draw_region(rng, info["box"])
        m.constrain_spatial(as_region(reg, m))
        env.note(region=reg)
    steps = []
    for _ in range(int(rng.integers(1, 4))):
        pt = int(rng.choice(pts))
        g = snap.NAMES[pt]
        name, attr = ("Masses", "masses")
        if pt == 0 and rng.random() < 0.4:
            name, attr = [("Densities", "densities"), ("Temperatures", "temperatures"), ("InternalEnergies", "internal_energies")][int(rng.integers(0, 3))]
        d = info["types"][pt][name]
        v = d["values"]
        lo, hi = np.sort(rng.choice(v, 2)) if rng.random() < 0.5 and len(v) > 1 else np.sort(rng.uniform(v.min() - 0.1, v.max() + 0.1, 2))
        lo, hi = np.float32(lo), np.float32(hi)
        U = {"M": m.units.mass, "L": m.units.length, "t": m.units.time, "T": m.units.temperature}
        unit = unyt.dimensionless
        for k, e in d["exps"].items():
            unit = unit * U[k] ** e
        phys = bool(d["attrs"].get("physical", 0))
        q = lambda x: sw.cosmo_quantity(x, unit, comoving=not phys, scale_factor=info["a"], scale_exponent=d["a_exp"])
        steps.append((g, attr, float(lo), float(hi)))
        env.note(steps=steps, counts=info["counts"])
        groups = [snap.NAMES[x] for x in pts]
        before = all_rows(m, groups)
        m.constrain_property(g, attr, q(lo), q(hi))
        after = all_rows(m, groups)
        for h in groups:
            want = before[h]
            if h == g:
                want = want[(v[want] > lo) & (v[want] <= hi)]
            check(np.array_equal(after[h], want), f"{h}: after {steps[-1]} kept {after[h].tolist()[:20]} instead of {want.tolist()[:20]}")


@case(quick=50, thorough=500)
def illegal_orders_raise(rng, env):
    info = snap.build(env.path("s.hdf5"), rng, counts={0: 30, 1: 20}, dims=(3, 2, 2), minmax=True)
    m = sw.mask(env.path("s.hdf5"))
    r1, r2 = draw_region(rng, info["box"]), draw_region(rng, info["box"])
    kind = str(rng.choice(["spatial-spatial", "property-spatial", "property-spatial-union", "index-on-snapshot", "spatial-index"]))
    env.note(kind=kind, r1=r1, r2=r2)

    def prop():
        m.constrain_property("gas", "masses", 0.3 * m.units.mass, 0.9 * m.units.mass)
    if kind.startswith("spatial"):
        m.constrain_spatial(as_region(r1, m))
    elif kind.startswith("property"):
        prop()
    groups = ["gas", "dark_matter"]
    before, was = all_rows(m, groups), m.constrained
    try:
        if kind == "spatial-spatial":
            m.constrain_spatial(as_region(r2, m))
        elif kind == "property-spatial":
            m.constrain_spatial(as_region(r2, m))
        elif kind == "property-spatial-union":
            m.constrain_spatial(as_region(r2, m), union=True)
        elif rng.random() < 0.5:
            m.constrain_indices([0, 2])
        else:
            m.constrain_index(1)
    except RuntimeError:
        after = all_rows(m, groups)
        for g in groups:
            check(np.array_equal(before[g], after[g]), f"{g}: a rejected constraint ({kind}) changed the selection")
        check(m.constrained == was, f"a rejected constraint changed the recorded state to {m.constrained}")
        return
    check(False, f"{kind} did not raise RuntimeError")


@case(quick=60, thorough=800)
def catalogue_indices(rng, env):
    n = int(rng.choice([3, 20, 60]))
    info = snap.build_soap(env.path("c.hdf5"), rng, n=n)
    m = sw.mask(env.path("c.hdf5"))
    k = int(rng.integers(1, n + 1))
    ix = rng.choice(n, k, replace=False)
    order = str(rng.choice(["sorted", "shuffled", "list"]))
    if order == "sorted":
        ix = np.sort(ix)
    if rng.random() < 0.25:        # a row asked for more than once: either once or as often as asked for, but consistently
        ix = np.concatenate([ix, ix[: int(rng.integers(1, 3))]])
        ix = np.sort(ix) if order == "sorted" else ix
    first = str(rng.choice(["none", "none", "none", "bool", "spatial", "property", "indices"]))
    env.note(n=n, indices=ix, order=order, first=first)
    grp = "bound_subhalo"
    if first == "bool":
        m.convert_masks_to_bool()
    elif first == "spatial":
        m.constrain_spatial(as_region([(0.1, 0.4), None, None], m))
    elif first == "property":
        m.constrain_property(grp, "total_mass", 0.2 * m.units.mass, 0.9 * m.units.mass)
    elif first == "indices":
        m.constrain_indices([0, 1])
    before, was = mask_rows(m, grp), m.constrained
    arg = [int(x) for x in ix] if order == "list" else ix
    keep = np.array(ix)
    single = len(ix) == 1 and rng.random() < 0.7
    try:
        if single:
            m.constrain_index(int(ix[0]))
        else:
            m.constrain_indices(arg)
    except RuntimeError:
        check(first not in ("none", "bool"), "a permitted index constraint was rejected")
        check(np.array_equal(before, mask_rows(m, grp)) and m.constrained == was, "a rejected index constraint changed the selection")
        return
    check(first in ("none", "bool"), f"index constraint after {first} did not raise")
    got = mask_rows(m, grp)
    if len(np.unique(keep)) < len(keep) and len(got) < len(keep):
        keep = np.unique(keep)
    check(np.array_equal(got, np.sort(keep)), f"selected {got.tolist()} instead of {np.sort(keep).tolist()}")
    m.convert_masks_to_ranges()
    check(int(m.bound_subhalo_size) == len(keep), f"size {m.bound_subhalo_size} for {len(keep)} rows")
    d = sw.load(env.path("c.hdf5"), mask=m)
    want = info["fields"]["BoundSubhalo/TotalMass"]["values"][np.sort(keep)]
    check(np.array_equal(np.asarray(d.bound_subhalo.total_mass), want), "the values read are not those of the rows asked for")
    # any further constraint must be refused
    for fn in (lambda: m.constrain_indices([0]), lambda: m.constrain_index(0), lambda: m.constrain_spatial(as_region([(0.1, 0.4), None, None], m))):
        try:
            fn()
        except RuntimeError:
            continue
        check(False, "a second, incompatible constraint was accepted")


@case(quick=20, thorough=200)
def catalogue_property(rng, env):
    n = int(rng.choice([5, 40]))
    info = snap.build_soap(env.path("c.hdf5"), rng, n=n)
    m = sw.mask(env.path("c.hdf5"))
    sel = np.arange(n)
    if rng.random() < 0.5:
        m.constrain_spatial(as_region([(0.0, 0.5), None, None], m))
        sel = mask_rows(m, "soap")
    v = info["fields"]["BoundSubhalo/TotalMass"]["values"]
    lo, hi = np.sort(rng.choice(v, 2))
    env.note(n=n, lo=float(lo), hi=float(hi))
    m.constrain_property("bound_subhalo", "total_mass", sw.cosmo_quantity(lo, m.units.mass, comoving=True, scale_factor=info["a"], scale_exponent=0),
                         sw.cosmo_quantity(hi, m.units.mass, comoving=True, scale_factor=info["a"], scale_exponent=0))
    got = mask_rows(m, "input_halos")
    want = sel[(v[sel] > lo) & (v[sel] <= hi)]
    check(np.array_equal(got, want), f"kept {got.tolist()} instead of {want.tolist()}")
