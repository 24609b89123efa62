"""C01 at run time: the range readers against plain indexing of a full read."""
import h5py
import numpy as np

from vlib.execlib import Skip, case, check, internal, sig_ok

ACC = "swiftsimio.accelerated"


def draw_ranges(rng, n, empties=True, maxr=8):
    """Ordered, non-overlapping, in-bounds half-open ranges (adjacent and empty ones included)."""
    k = int(rng.integers(0, maxr))
    cuts = np.sort(rng.integers(0, n + 1, 2 * k))
    if rng.random() < 0.4 and k > 1:
        j = rng.integers(0, k - 1)
        cuts[2 * j + 2] = cuts[2 * j + 1]
    if rng.random() < 0.2 and k:
        cuts[-1] = n
    if rng.random() < 0.2 and k:
        cuts[0] = 0
    r = np.sort(cuts).reshape(-1, 2)
    if not empties:
        r = r[r[:, 0] < r[:, 1]]
    return r.astype(int)


def rows(r):
    return np.concatenate([np.arange(a, b) for a, b in r] + [np.arange(0)]).astype(int)


def draw_dataset(rng, f, name="d"):
    n = int(rng.choice([0, 1, 2, 3, 7, 16, 40, 97]))
    wide = rng.random() < 0.5
    w = int(rng.integers(1, 5))
    shape = (n, w) if wide else (n,)
    dt = np.dtype(str(rng.choice(["f8", "f4", "i8", "i4", ">f8", ">f4", ">i8", "<i2", "u1"])))
    data = (rng.integers(-100, 100, shape) + (rng.random(shape) if dt.kind == "f" else 0)).astype(dt)
    chunked = rng.random() < 0.7
    if chunked:
        c = int(rng.choice([1, 2, 3, 5, 8, 16, 50]))
        if n == 0:
            d = f.create_dataset(name, shape=shape, dtype=dt, maxshape=(None,) + shape[1:], chunks=(c,) + shape[1:])
        else:
            ch = (min(c, n),) + ((int(rng.integers(1, w + 1)),) if wide else ())
            d = f.create_dataset(name, data=data, chunks=ch)
    else:
        d = f.create_dataset(name, data=data)
    return d, data


@case(quick=150, thorough=3000)
def reader_matches_indexing(rng, env):
    read = internal(ACC, "read_ranges_from_file")
    with h5py.File(env.path("a.h5"), "w") as f:
        d, data = draw_dataset(rng, f)
        n = data.shape[0]
        r = draw_ranges(rng, n)
        cols = np.s_[:]
        shape = (len(rows(r)),) + data.shape[1:] if data.ndim > 1 else len(rows(r))
        if data.ndim > 1 and rng.random() < 0.4:
            cols = int(rng.integers(0, data.shape[1]))
            shape = len(rows(r))
        elif data.ndim > 1 and rng.random() < 0.3:
            cols = slice(0, int(rng.integers(1, data.shape[1] + 1)))
            shape = (len(rows(r)), cols.stop)
        env.note(data=data, ranges=r, chunks=d.chunks, columns=str(cols), dtype=str(data.dtype))
        if not len(rows(r)):
            env.trivial()
        before = r.copy()
        fns = ["read_ranges_from_file", "read_ranges_from_file_unchunked"]
        if d.chunks is not None and len(r):
            fns.append("read_ranges_from_file_chunked")
        for name in fns:
            try:
                fn = internal(ACC, name, d, r, output_shape=shape, output_type=data.dtype, columns=cols)
            except Skip:
                if name == "read_ranges_from_file":
                    raise
                continue
            out = fn(d, r, output_shape=shape, output_type=data.dtype, columns=cols)
            want = data[rows(r)]
            if data.ndim > 1:
                want = want[:, cols]
            check(out.dtype.isnative, f"{name}: result is not in native byte order ({out.dtype})")
            check(out.shape == want.shape, f"{name}: shape {out.shape} instead of {want.shape}")
            check(np.array_equal(out, want), f"{name}: rows differ: got {out.tolist()[:20]} want {want.tolist()[:20]}")
            check(np.array_equal(r, before), f"{name}: the ranges passed in were modified")
        check(np.array_equal(d[...], data), "the file was modified")


@case(quick=60, thorough=1500)
def chunk_helpers(rng, env):
    gcr = internal(ACC, "get_chunk_ranges", 1, 2, 3)
    ext = internal(ACC, "extract_ranges_from_chunks", 1, 2, 3)
    n = int(rng.choice([1, 2, 5, 17, 64, 200]))
    c = int(rng.integers(1, n + 3))
    r = draw_ranges(rng, n)
    if not len(r):
        r = np.array([[0, n]])
    env.note(ranges=r, chunk=c, n=n)
    ch = gcr(r, c, n)
    check(ch.ndim == 2 and ch.shape[1] == 2, f"chunk ranges have shape {ch.shape}")
    check(np.all(ch[:, 0] >= 0) and np.all(ch[:, 1] <= n), f"chunk ranges out of bounds: {ch.tolist()}")
    check(np.all(ch[:, 0] <= ch[:, 1]), f"chunk range reversed: {ch.tolist()}")
    check(np.all(ch[1:, 0] >= ch[:-1, 1]), f"chunk ranges overlap: {ch.tolist()}")
    check(np.isin(rows(r), rows(ch)).all(), f"chunk ranges {ch.tolist()} do not cover the ranges {r.tolist()}")
    data = np.arange(n) * 3 + 1
    if rng.random() < 0.4:
        data = np.stack([data, -data], 1)
    out = ext(data[rows(ch)], ch, r)
    check(np.array_equal(out, data[rows(r)]), f"extracted {out.tolist()[:30]} instead of {data[rows(r)].tolist()[:30]}")


@case(quick=40, thorough=800)
def expand_contract(rng, env):
    ex = internal(ACC, "expand_ranges", 1)
    r = draw_ranges(rng, int(rng.integers(1, 60)))
    if not len(r):
        r = np.array([[3, 3]])
    if rng.random() < 0.3:
        r = r[rng.permutation(len(r))]
    env.note(ranges=r)
    out = ex(r)
    check(np.array_equal(out, rows(r)), f"expanded to {out.tolist()} instead of {rows(r).tolist()}")


@case(quick=30, thorough=400)
def native_byteorder(rng, env):
    fn = internal(ACC, "to_native_byteorder_inplace", 1)
    n = int(rng.integers(0, 9))
    if rng.random() < 0.4:
        dt = np.dtype([("a", str(rng.choice([">f8", "<f8"]))), ("b", str(rng.choice([">i4", "<i4"]))), ("c", ">u2")])
        a = np.zeros(n, dt)
        for k in dt.names:
            a[k] = rng.integers(0, 1000, n)
    else:
        a = rng.integers(-1000, 1000, (n, 2) if rng.random() < 0.5 else n).astype(str(rng.choice([">f8", "<f8", ">i8", ">i2", "u1", ">f4"])))
    env.note(a=a, dtype=str(a.dtype))
    want = a.tolist()
    fn(a)
    check(a.dtype.isnative, "still not native")
    check(a.tolist() == want, "values changed")


@case(quick=6, thorough=20)
def long_contiguous_strategy(rng, env):
    """Ranges longer than the cross-over size take the other strategy."""
    read = internal(ACC, "read_ranges_from_file")
    n = 1_300_000
    data = (np.arange(n) * 7 % 65521).astype("i4")
    with h5py.File(env.path("a.h5"), "w") as f:
        d = f.create_dataset("d", data=data, chunks=(int(rng.choice([4096, 100_000])),))
        a = int(rng.integers(0, 5000))
        r = np.array([[a, a + 600_000], [a + 600_001, n - int(rng.integers(0, 9))]]) if rng.random() < 0.5 else \
            np.array([[a, a + 10], [a + 20, a + 3000], [n - 1, n]])
        env.note(ranges=r, chunk=d.chunks)
        want = data[rows(r)]
        out = read(d, r, output_shape=len(want), output_type=data.dtype)
        check(np.array_equal(out, want), "rows differ")


@case(quick=1, thorough=3)
def many_separate_ranges(rng, env):
    """A selection that touches tens of thousands of separate chunks."""
    read = internal(ACC, "read_ranges_from_file")
    k = 33_500
    data = rng.integers(0, 2**31, 4 * k).astype("i8")
    a = 4 * np.arange(k)
    r = np.stack([a, a + 1 + (np.arange(k) % 2)], axis=1)
    env.note(ranges=f"{k} ranges [4i, 4i+1 or 4i+2)", chunk=4)
    with h5py.File(env.path("a.h5"), "w") as f:
        d = f.create_dataset("d", data=data, chunks=(2,))
        want = data[rows(r)]
        out = read(d, r, output_shape=len(want), output_type=data.dtype)
        check(np.array_equal(out, want), "rows differ")


@case(quick=30, thorough=300)
def index_dataset_matches(rng, env):
    fn = internal(ACC, "index_dataset", 1, 2)
    n = int(rng.integers(1, 60))
    data = rng.random(n)
    ix = np.sort(rng.choice(n, int(rng.integers(0, n + 1)), replace=False)).astype(int)
    env.note(data=data, index=ix)
    with h5py.File(env.path("a.h5"), "w") as f:
        d = f.create_dataset("d", data=data, chunks=(int(rng.integers(1, n + 1)),) if rng.random() < 0.6 else None)
        out = fn(d, ix)
        check(np.array_equal(out, data[ix]), f"got {out.tolist()} want {data[ix].tolist()}")
