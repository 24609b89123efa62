"""C02 at run time: index arrays, boolean masks and range masks."""
import warnings

import numpy as np

import swiftsimio as sw
from checks.x_c01 import rows
from vlib import snap
from vlib.execlib import case, check, internal

ACC = "swiftsimio.accelerated"


@case(quick=80, thorough=1500)
def ranges_of_indices(rng, env):
    rfa = internal(ACC, "ranges_from_array", 1)
    n = int(rng.choice([1, 2, 5, 30, 200]))
    ix = np.where(rng.random(n) < rng.random())[0]
    if rng.random() < 0.2:
        ix = np.arange(n)
    if rng.random() < 0.3:
        ix = ix + int(rng.integers(0, 2**33))
    if rng.random() < 0.25:   # a row may be named more than once
        ix = np.repeat(ix, rng.integers(1, 4, len(ix)))
    ix = ix.astype(rng.choice([np.int64, np.int64, np.uint32, np.int32]) if (not len(ix) or ix[-1] < 2**31) else np.int64)
    env.note(indices=ix, dtype=str(ix.dtype))
    r = rfa(ix)
    check(r.ndim == 2 and r.shape[1] == 2, f"ranges have shape {r.shape}")
    if len(ix):
        check(np.all(r[:, 0] < r[:, 1]), "an empty or reversed range")
        check(np.all(r[1:, 0] >= (r[:-1, 1] if len(np.unique(ix)) == len(ix) else r[:-1, 1] - 1)), "ranges not ordered or overlapping")
    else:
        env.trivial()
    check(np.array_equal(rows(r), ix), f"expands to {rows(r).tolist()[:20]} instead of {ix.tolist()[:20]}")
    ex = internal(ACC, "expand_ranges", 1)
    check(np.array_equal(ex(r), ix), "expand_ranges(ranges_from_array(x)) != x")


def mask_rows(m, group, n):
    v = np.asarray(getattr(m, group))
    return np.where(v)[0] if v.dtype == bool else rows(v)


@case(quick=25, thorough=400)
def conversions_keep_rows(rng, env):
    cnt = {p: int(rng.choice([0, 1, 5, 40])) for p in (0, 1, 4)}
    if not any(cnt.values()):
        cnt[0] = 3
    info = snap.build(env.path("s.hdf5"), rng, counts=cnt, dims=(2, 3, 2), minmax=True)
    m = sw.mask(env.path("s.hdf5"))
    L = m.metadata.boxsize
    how = str(rng.choice(["none", "spatial", "property", "index"]))
    lo, hi = np.sort(rng.random(2))
    env.note(counts=cnt, how=how, lo=lo, hi=hi)
    if how == "spatial":
        m.constrain_spatial([[lo * L[0], hi * L[0]], None, [0.2 * L[2], 0.9 * L[2]]])
    elif how == "property":
        g = next(snap.NAMES[p] for p in cnt if cnt[p])
        m.constrain_property(g, "masses", (0.1 + lo) * m.units.mass, (0.1 + hi) * m.units.mass)
    groups = {snap.NAMES[p]: cnt[p] for p in cnt if hasattr(m, snap.NAMES[p])}
    want = {g: mask_rows(m, g, n) for g, n in groups.items()}
    seq = [str(x) for x in rng.choice(["r", "b"], int(rng.integers(1, 6)))]
    env.note(seq=seq)
    for s in seq:
        (m.convert_masks_to_ranges if s == "r" else m.convert_masks_to_bool)()
        for g, n in groups.items():
            got = mask_rows(m, g, n)
            check(np.array_equal(got, want[g]), f"{g}: rows changed by conversion {seq}: {want[g].tolist()} -> {got.tolist()}")
            v = np.asarray(getattr(m, g))
            check((v.dtype == bool) == (s == "b"), f"{g}: the mask is not in the {'boolean' if s == 'b' else 'range'} form")
            if s == "b":
                check(v.shape == (n,), f"{g}: boolean mask has shape {v.shape}")
            else:
                check(int(getattr(m, g + "_size")) == len(want[g]), f"{g}: size {getattr(m, g + '_size')} for {len(want[g])} rows")
