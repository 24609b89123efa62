"""C21 at run time: generated smoothing lengths against brute force."""
import numpy as np
import unyt

from vlib.execlib import case, check

BLOCK = 65536


def brute(pos, box, k, which):
    """Distance to the k-th nearest particle (the particle itself counting as the first), in the periodic box."""
    out = np.empty(len(which))
    for a, i in enumerate(which):
        d = pos - pos[i]
        if box is not None:
            d -= box * np.round(d / box)
        r2 = (d ** 2).sum(1)
        out[a] = np.sqrt(np.partition(r2, k - 1)[k - 1])
    return out


def run(rng, env, n, sw):
    from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths as gen
    dim = 3
    a = float(rng.choice([1.0, 0.5, 0.25]))
    L = np.ones(3) * float(rng.uniform(0.5, 20)) if rng.random() < 0.6 else rng.uniform(0.5, 20, 3)
    pos = rng.random((n, 3)) * L * (1 - 1e-12)
    if rng.random() < 0.3:
        pos = pos * 0.02        # clustered in a corner
    unit, bunit = str(rng.choice(["Mpc", "kpc"])), str(rng.choice(["Mpc", "kpc"]))
    conv = float(unyt.Unit(unit).get_conversion_factor(unyt.Unit(bunit))[0])
    com = bool(rng.integers(2))
    bcom = bool(rng.integers(2))
    f4 = rng.random() < 0.3
    # coordinates in frame `com`, the box in frame `bcom`
    frame = (1.0 if com else a) / (1.0 if bcom else a)
    c = sw.cosmo_array(pos.astype("f4") if f4 else pos, unit, comoving=com, scale_factor=a, scale_exponent=1)
    if f4:
        pos = np.asarray(c, dtype=float)
        c = sw.cosmo_array(np.minimum(np.asarray(c), np.nextafter(L.astype("f4"), np.float32(0)) * np.float32(0.999999)), unit, comoving=com,
                           scale_factor=a, scale_exponent=1)
        pos = np.asarray(c, dtype=float)
    box = sw.cosmo_array(L * conv / frame, bunit, comoving=bcom, scale_factor=a, scale_exponent=1)
    speed = int(rng.choice([1, 2, 3]))
    kmin = speed
    nb = int(rng.integers(kmin, max(kmin + 1, min(40, speed * n) + 1)))
    nb = min(nb, speed * n + speed - 1)
    k = nb // speed
    gamma = float(rng.choice([1.897367, 1.936492, 1.0]))
    d = int(rng.choice([3, 3, 2, 1]))
    env.note(n=n, L=L, neighbours=nb, speedup=speed, gamma=gamma, dimension=d, comoving=com, box_comoving=bcom, units=[unit, bunit], f4=f4)
    before = np.array(c, copy=True)
    h = gen(c, box, kernel_gamma=gamma, neighbours=nb, speedup_fac=speed, dimension=d)
    check(np.array_equal(np.asarray(c), before), "the coordinates were modified")
    check(h.shape == (n,), f"{h.shape[0]} smoothing lengths for {n} particles")
    check(isinstance(h, sw.cosmo_array), f"a {type(h).__name__} instead of a cosmo_array")
    check(h.units.dimensions == c.units.dimensions, f"units {h.units}")
    check(h.comoving == com, f"comoving={h.comoving}, coordinates have {com}")
    check(h.cosmo_factor == c.cosmo_factor, f"cosmo factor {h.cosmo_factor} instead of {c.cosmo_factor}")
    got = np.asarray(h.to_value(c.units), dtype=float)
    which = np.arange(n) if n <= 400 else np.unique(np.concatenate([[0, 1, n - 1, n - 2], rng.integers(0, n, 40),
                                            [i for b in range(BLOCK, n + BLOCK, BLOCK) for i in (b - 1, b, b + 1) if 0 <= i < n]]).astype(int))
    want = brute(pos, L, k, which) * speed ** (1 / d) / gamma
    ok = np.isclose(got[which], want, rtol=2e-5, atol=1e-6 * L.max() * (1e-1 if not f4 else 1))
    if not ok.all():
        j = which[~ok][0]
        check(False, f"particle {j}: smoothing length {got[j]}, expected {want[~ok][0]} ({(~ok).sum()} of {len(which)} wrong)")
    check(np.isfinite(got).all() and (got >= 0).all(), f"{(~np.isfinite(got) | (got < 0)).sum()} smoothing lengths are not set")


@case(quick=60, thorough=1500)
def small(rng, env):
    import swiftsimio as sw
    run(rng, env, int(rng.choice([1, 2, 3, 5, 20, 100, 400])), sw)


@case(quick=4, thorough=25)
def around_the_block_size(rng, env):
    import swiftsimio as sw
    n = [BLOCK, BLOCK + 1, BLOCK - 1, 2 * BLOCK, 2 * BLOCK + 1, BLOCK + 1000, 2 * BLOCK - 1][env.k % 7]
    run(rng, env, n, sw)
