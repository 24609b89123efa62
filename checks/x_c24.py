"""C24 at run time: requests to a remote dataset, played by a recording stand-in."""
import numpy as np

from checks.x_c01 import draw_ranges, rows
from vlib.execlib import Violation, case, check, internal


class Remote:
    """Stand-in for a hdfstream dataset: records the request and fills the destination."""
    chunks = None

    def __init__(self, data):
        self.data, self.ndim, self.shape, self.dtype = data, data.ndim, data.shape, data.dtype
        self.asked = None

    def request_slices(self, slices, dest=None):
        self.asked = list(slices)
        parts = [self.data[s] for s in slices]
        out = np.concatenate(parts)
        if dest is None:
            return out
        dest[...] = out.reshape(dest.shape)
        return dest


def first(s):
    return s[0] if isinstance(s, tuple) else s


@case(quick=150, thorough=2500)
def remote_rows_in_requested_order(rng, env):
    read = internal("swiftsimio.accelerated", "read_ranges_from_hdfstream")
    OS = internal("swiftsimio._ordered_slices", "OrderedSlices")
    n = int(rng.choice([1, 4, 20, 80]))
    shape = (n, int(rng.integers(1, 4))) if rng.random() < 0.5 else (n,)
    data = rng.integers(-1000, 1000, shape).astype(str(rng.choice(["i8", ">i4", "f8"])))
    r = draw_ranges(rng, n)
    if rng.random() < 0.6:
        r = r[rng.permutation(len(r))]
    cols = np.s_[:]
    k = len(rows(r))
    oshape = (k,) + shape[1:] if len(shape) > 1 else k
    if len(shape) > 1 and rng.random() < 0.4:
        cols = int(rng.integers(0, shape[1]))
        oshape = k
    env.note(data=data, ranges=r, columns=str(cols))
    if len(r) < 2:
        env.trivial()
    d = Remote(data)
    before = r.copy()
    out = read(d, r, output_shape=oshape, output_type=data.dtype, columns=cols)
    want = data[rows(r)]
    if len(shape) > 1 and isinstance(cols, int):
        want = want[:, cols]
    check(out.shape == want.shape, f"shape {out.shape} instead of {want.shape}")
    check(np.array_equal(out, want), f"rows out of order: {out.tolist()} instead of {want.tolist()}")
    check(out.dtype.isnative, "not native")
    check(np.array_equal(r, before), "ranges argument modified")
    s = [first(x) for x in (d.asked or [])]
    b = np.array([[x.start, x.stop] for x in s]).reshape(-1, 2)
    check(np.all(b[:, 0] < b[:, 1]), f"an empty slice was requested: {b.tolist()}")
    check(np.all(b[1:, 0] >= b[:-1, 1]), f"requested slices not ascending and disjoint: {b.tolist()}")
    check(np.array_equal(rows(b), np.sort(rows(r))), f"requested rows {rows(b).tolist()} differ from {np.sort(rows(r)).tolist()}")


@case(quick=60, thorough=600)
def overlaps_are_rejected(rng, env):
    OS = internal("swiftsimio._ordered_slices", "OrderedSlices", 1, 2)
    n = int(rng.integers(4, 40))
    k = int(rng.integers(2, 6))
    a = rng.integers(0, n, k)
    b = np.minimum(n, a + rng.integers(0, max(2, n // 2), k))
    r = np.stack([a, b], 1)
    cover = rows(r)
    over = len(np.unique(cover)) != len(cover)
    env.note(ranges=r, overlapping=over)
    try:
        o = OS(r, 1)
    except RuntimeError:
        check(over, f"disjoint ranges {r.tolist()} were rejected")
        return
    check(not over, f"overlapping ranges {r.tolist()} were accepted")
    s = [first(x) for x in o.slices]
    got = rows(np.array([[x.start, x.stop] for x in s]).reshape(-1, 2))
    check(np.array_equal(got, np.sort(cover)), "rows requested differ")
    arr = got * 10
    check(np.array_equal(o.reorder_result(arr), cover * 10), "reordered rows differ")
