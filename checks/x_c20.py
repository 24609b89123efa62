"""C20 at run time: nearest-grid-point deposition and the binned power spectrum against direct evaluation."""
import importlib
import sys

import numpy as np
import unyt

from vlib import snap
from vlib.execlib import Skip, case, check, internal, sig_ok

PS = "swiftsimio.visualisation.power_spectrum"


def f4(x):
    return np.asarray(x, dtype="f4")


def draw(rng, n, box, fold):
    """Particle positions: inside, on cell and box edges, outside the box, negative, just below the folded box."""
    out = []
    for b in box:
        kind = rng.integers(0, 6, n)
        u = rng.random(n)
        p = np.select([kind == 0, kind == 1, kind == 2, kind == 3, kind == 4],
                      [u * b, np.round(u * 8) / 8 * b, (u - 0.5) * 4 * b, np.round(u * fold) * b / fold, -u * 1e-9 * b], u * b * (1 - 1e-8))
        if rng.random() < 0.5:
            p = p.astype("f4").astype(float)
        out.append(p)
    return out


def deposit_args(rng, n, fold=None):
    res = int(rng.integers(1, 12))
    fold = float(2.0 ** rng.integers(0, 4)) if fold is None else fold
    box = rng.uniform(0.3, 20, 3) if rng.random() < 0.5 else np.ones(3) * rng.uniform(0.3, 20)
    x, y, z = draw(rng, n, box, fold)
    m = rng.uniform(0.5, 2, n)
    if rng.random() < 0.3:
        m = m * np.where(rng.random(n) < 0.5, -1, 1)
    return dict(x=x, y=y, z=z, m=m.astype("f4") if rng.random() < 0.3 else m, res=res, fold=fold, box_x=float(box[0]), box_y=float(box[1]),
                box_z=float(box[2]))


def possible(p, b, res):
    """The cells that hold the folded, wrapped position (two when within rounding error of an edge)."""
    s = np.mod(p, b) / b * res
    c = np.floor(s)
    out = {int(c) % res}
    e = 1e-6 * res * max(1.0, abs(p) / b)
    out.add(int(np.floor(s - e)) % res)
    out.add(int(np.floor(s + e)) % res)
    return out


@case(quick=120, thorough=4000)
def one_particle_one_cell(rng, env):
    dep = internal(PS, "deposit", x=0, y=0, z=0, m=0, res=1, fold=1.0, box_x=1, box_y=1, box_z=1)
    A = deposit_args(rng, 1)
    env.note(**A)
    out = np.asarray(dep(**A), float)
    res = A["res"]
    check(out.shape == (res,) * 3, f"shape {out.shape}")
    nz = np.argwhere(out != 0)
    check(len(nz) == 1, f"{len(nz)} cells were written")
    for ax, v in enumerate("xyz"):
        ok = possible(float(A[v][0]), A["box_" + v] / A["fold"], res)
        check(int(nz[0][ax]) in ok, f"cell {nz[0].tolist()}: along {v} the position lies in {sorted(ok)}")
    vol = res ** 3 * A["fold"] ** 3
    check(np.isclose(out.sum() / vol, A["m"][0], rtol=1e-5), f"deposited {out.sum() / vol} for a mass of {A['m'][0]}")


@case(quick=60, thorough=2000)
def total_and_superposition(rng, env):
    dep = internal(PS, "deposit", x=0, y=0, z=0, m=0, res=1, fold=1.0, box_x=1, box_y=1, box_z=1)
    n = int(rng.choice([0, 1, 2, 7, 60]))
    A = deposit_args(rng, n)
    env.note(**A)
    if not n:
        env.trivial()
    before = {k: np.array(v, copy=True) for k, v in A.items()}
    out = np.asarray(dep(**A), float)
    for k, v in before.items():
        check(np.array_equal(v, A[k]), f"the argument {k} was modified")
    vol = A["res"] ** 3 * A["fold"] ** 3
    tot = np.abs(np.asarray(A["m"], float)).sum()
    check(abs(out.sum() / vol - np.asarray(A["m"], float).sum()) <= 1e-5 * (tot + 1e-9), f"total {out.sum() / vol} instead of {A['m'].sum()}")
    s = np.zeros_like(out)
    for i in range(n):
        s += dep(**{**A, **{k: A[k][i:i + 1] for k in "xyzm"}})
    check(np.allclose(out, s, rtol=1e-4, atol=1e-5 * vol), "depositing together differs from depositing one by one")
    # a box smaller by the folding factor gives the same up to the volume factor
    if A["fold"] > 1:
        B = dict(A, fold=1.0, box_x=A["box_x"] / A["fold"], box_y=A["box_y"] / A["fold"], box_z=A["box_z"] / A["fold"])
        o2 = np.asarray(dep(**B), float)
        check(np.allclose(out / A["fold"] ** 3, o2, rtol=1e-4, atol=1e-5 * A["res"] ** 3), "folding differs from a smaller box")
    # wrapping any particle by any number of boxes changes nothing (exact arithmetic: box a power of two, positions dyadic)
    C = dict(A, box_x=2.0, box_y=4.0, box_z=0.5, fold=2.0)
    for v, b in (("x", 2.0), ("y", 4.0), ("z", 0.5)):
        C[v] = rng.integers(0, 64, n) / 64 * b
    D = dict(C)
    for v, b in (("x", 2.0), ("y", 4.0), ("z", 0.5)):
        D[v] = C[v] + b * rng.integers(-3, 4, n)
    check(np.allclose(dep(**C), dep(**D), rtol=1e-4, atol=1e-4), "wrapping particles by whole boxes changes the deposit")


@case(quick=25, thorough=400)
def parallel_equals_serial(rng, env):
    dep = internal(PS, "deposit", x=0, y=0, z=0, m=0, res=1, fold=1.0, box_x=1, box_y=1, box_z=1)
    par = internal(PS, "deposit_parallel", x=0, y=0, z=0, m=0, res=1, fold=1.0, box_x=1, box_y=1, box_z=1)
    n = int(rng.choice([0, 1, 2, 3, 7, 8, 9, 17, 100]))
    A = deposit_args(rng, n)
    env.note(**A)
    a, b = np.asarray(dep(**A), float), np.asarray(par(**A), float)
    check(a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4 * A["res"] ** 3 * A["fold"] ** 3), "parallel and serial deposits differ")


@case(quick=10, thorough=100)
def through_a_dataset(rng, env):
    import swiftsimio as sw
    importlib.import_module(PS)
    render = getattr(sys.modules[PS], "render_to_deposit")
    a = float(rng.choice([1.0, 0.5]))
    box = np.ones(3) * rng.uniform(0.5, 3) if rng.random() < 0.6 else rng.uniform(0.5, 3, 3)
    info = snap.build(env.path("a.h5"), rng, counts={0: int(rng.choice([0, 1, 30]))}, a=a, box=tuple(box))
    ds = sw.load(env.path("a.h5"))
    phys = bool(rng.integers(2))
    project = str(rng.choice(["masses", "densities", "temperatures"]))
    fold = int(rng.integers(0, 4))
    res = int(rng.integers(1, 9))
    if phys:
        ds.gas.coordinates.convert_to_physical()
        for p in ("masses", "densities"):
            getattr(ds.gas, p).convert_to_physical()
    if rng.random() < 0.3:
        ds.gas.coordinates.convert_to_units("kpc")
    env.note(n=info["num"][0], a=a, box=box, physical=phys, project=project, folding=fold, res=res)
    try:
        d = render(ds.gas, resolution=res, project=project, folding=fold, parallel=bool(rng.integers(2)))
    except AttributeError as e:
        check(project == "temperatures" or str(ds.gas.coordinates.units) != str(ds.metadata.boxsize.units), f"rejected: {e}")
        return
    q = getattr(ds.gas, project)
    vol = np.prod(box * (a if phys else 1))
    check(bool(d.comoving) == (not phys), f"comoving={d.comoving} for {'physical' if phys else 'comoving'} coordinates")
    check(d.cosmo_factor == q.cosmo_factor / ds.gas.coordinates.cosmo_factor ** 3, f"cosmo factor {d.cosmo_factor}")
    want = float(np.asarray(q, dtype=float).sum()) / vol
    unit = q.units / ds.metadata.boxsize.units ** 3
    got = float(np.asarray(d, dtype=float).mean()) * float(d.units.get_conversion_factor(unit)[0]) / 8.0 ** fold if len(q) else 0.0
    # mean density over the folded grid = fold^3 * total / volume
    check(np.isclose(got, want, rtol=1e-4), f"mean deposited density {got}, total/volume = {want} (folding {fold})")


@case(quick=15, thorough=300)
def power_spectrum_of_deposit(rng, env):
    """deposition_to_power_spectrum against a direct sum over modes."""
    import swiftsimio as sw
    f = internal(PS, "deposition_to_power_spectrum", deposition=0, boxsize=0, folding=0, cross_deposition=None, wavenumber_bins=None)
    n = int(rng.integers(2, 7))
    L = float(rng.uniform(0.5, 20))
    fold = int(rng.integers(0, 3))
    C = lambda v, u, e: sw.cosmo_array(v, u, comoving=True, scale_factor=0.5, scale_exponent=e)
    dep = rng.random((n, n, n)) + 0.1
    cross = rng.random((n, n, n)) + 0.1 if rng.random() < 0.4 else None
    box = C(np.ones(3) * L, "Mpc", 1)
    norm = None
    dk = 2 * np.pi / (L / 2.0**fold)
    bins = None
    if rng.random() < 0.5:
        nb = int(rng.integers(1, 6))
        e = np.sort(rng.uniform(0.3, n, nb + 1)) * dk
        bins = C(e, "1/Mpc", -1)
    else:
        e = np.arange(0.5, n // 2 + 1, 1.0) * dk
    if len(e) < 2:
        env.trivial()
        return
    env.note(n=n, L=L, folding=fold, bins=e, cross=cross is not None)
    k, P, cnt = f(C(dep, "Msun/Mpc**3", -3), box, folding=fold, cross_deposition=None if cross is None else C(cross, "Msun/Mpc**3", -3),
                  wavenumber_bins=bins, shot_noise_norm=norm)
    idx = np.arange(n)
    d1 = dep / dep.mean() - 1
    d2 = (cross / cross.mean() - 1) if cross is not None else d1
    W = np.exp(-2j * np.pi * np.outer(idx, idx) / n)
    ft = lambda d: np.einsum("ax,by,cz,xyz->abc", W, W, W, d) / n**3
    amp = (ft(d1) * ft(d2).conj()).real * (L / 2.0**fold) ** 3 * 8.0**fold
    kk = np.where(idx < (n + 1) // 2, idx, idx - n) * dk
    kn = np.sqrt(kk[:, None, None] ** 2 + kk[None, :, None] ** 2 + kk[None, None, :] ** 2)
    near = np.abs(kn[..., None] - e).min(-1) < 1e-9 * dk
    for j in range(len(e) - 1):
        edge = near & (np.abs(kn - e[j]) < 1e-6 * dk) | near & (np.abs(kn - e[j + 1]) < 1e-6 * dk)
        if edge.any():
            continue
        sel = (kn >= e[j]) & (kn < e[j + 1])
        check(int(cnt[j]) == int(sel.sum()), f"bin {j}: {int(cnt[j])} modes instead of {int(sel.sum())}")
        if sel.any():
            check(np.isclose(float(k[j].to_value("1/Mpc")), kn[sel].mean(), rtol=1e-6), f"bin {j}: mean wavenumber {k[j]} != {kn[sel].mean()}")
            check(np.isclose(float(P[j].to_value("Mpc**3")), amp[sel].mean(), rtol=1e-5, atol=1e-9 * np.abs(amp).max()),
                  f"bin {j}: power {P[j]} instead of {amp[sel].mean()}")
        else:
            check(float(np.asarray(P[j])) == 0.0, f"empty bin {j} has power {P[j]}")


@case(quick=12, thorough=200)
def folded_spectrum(rng, env):
    """Every bin of the combined spectrum is the one of a folding, and converts between the frames as that one does."""
    mod = importlib.import_module(PS)
    f, one = internal(PS, "folded_depositions_to_power_spectrum", depositions={}, boxsize=None, number_of_wavenumber_bins=1), mod.deposition_to_power_spectrum
    a = float(rng.uniform(0.2, 1.0))
    from swiftsimio import cosmo_array
    comoving = bool(rng.random() < 0.7)

    def C(v, u, e):
        return cosmo_array(v, unyt.Unit(u), comoving=comoving, scale_factor=a, scale_exponent=e)
    n = int(rng.integers(6, 12))
    L = float(rng.uniform(1, 20))
    box = C([L] * 3, "Mpc", 1)
    folds = sorted(int(x) for x in rng.choice(4, size=int(rng.integers(1, 3)), replace=False))
    deps = {k: C(rng.random((n, n, n)) + 0.1, "Msun/Mpc**3", -3) for k in folds}
    dk = 2 * np.pi / L
    nb = int(rng.integers(2, 8))
    lo, hi = 0.7 * dk * 2 ** folds[0], 0.45 * n * dk * 2 ** folds[-1]
    log = bool(rng.random() < 0.5)
    env.note(a=a, n=n, L=L, folds=folds, nb=nb, lo=lo, hi=hi, log=log, comoving=comoving)
    bins, k, P, track = f(deps, box, nb, wavenumber_range=C([lo, hi], "1/Mpc", -1), log_wavenumber_bins=log)
    check(len(bins) == nb + 1 and len(k) == len(P) == len(track) == nb, "one value per bin")
    parts = {q: one(deps[q], box, folding=q, wavenumber_bins=bins) for q in folds}
    for to in (None, "to_physical", "to_comoving"):
        g = (lambda q: q) if to is None else (lambda q: getattr(q, to)())
        for j in range(nb):
            got_k, got_P = float(g(k)[j].to_value("1/Mpc")), float(g(P)[j].to_value("Mpc**3"))
            used = [q for q in folds if parts[q][2][j] > 0]
            if not used:
                continue
            cand = [(float(g(parts[q][0])[j].to_value("1/Mpc")), float(g(parts[q][1])[j].to_value("Mpc**3")), 2.0 ** q) for q in used]
            centre = float(g(0.5 * (bins[1:] + bins[:-1]))[j].to_value("1/Mpc"))
            ok = any(np.isclose(got_k, ck, rtol=1e-6) and np.isclose(got_P, cP, rtol=1e-6, atol=0) and float(track[j]) == ct for ck, cP, ct in cand)
            none = got_P == 0 and np.isclose(got_k, centre, rtol=1e-6)
            check(ok or none, f"bin {j}{' ' + to if to else ''}: wavenumber {got_k}, power {got_P}, folding {float(track[j])}, expected one of {cand}")
            if len(folds) == 1:
                check(ok, f"bin {j}: {parts[folds[0]][2][j]} modes are left out")


@case(quick=30, thorough=300)
def choice_of_folding(rng, env):
    """Each bin comes from the folding that samples it by the most modes (the lowest of these), among the foldings that are used
    there: sampled by more modes than the minimum (any number for the lowest folding), and below the cut-off (but for the highest)."""
    from swiftsimio import cosmo_array
    mod = importlib.import_module(PS)
    f, one = internal(PS, "folded_depositions_to_power_spectrum", depositions={}, boxsize=None, number_of_wavenumber_bins=1), mod.deposition_to_power_spectrum

    def C(v, u, e):
        return cosmo_array(v, unyt.Unit(u), comoving=True, scale_factor=0.5, scale_exponent=e)
    L = float(rng.uniform(1, 20))
    box = C([L] * 3, "Mpc", 1)
    folds = [int(x) for x in rng.permutation(4)[: int(rng.integers(2, 4))]]
    ns = {q: int(rng.integers(5, 13)) for q in folds}
    deps = {q: C(rng.random((ns[q],) * 3) + 0.1, "Msun/Mpc**3", -3) for q in folds}
    cross = {q: C(rng.random((ns[q],) * 3) + 0.1, "Msun/Mpc**3", -3) for q in folds[::-1]} if rng.random() < 0.3 else None
    first, last = min(folds), max(folds)
    dk = 2 * np.pi / L
    nb = int(rng.integers(2, 12))
    lo, hi = 0.7 * dk * 2 ** first, 0.6 * ns[last] * dk * 2 ** last
    least = int(rng.choice([0, 0, 3, 30]))
    frac = None if rng.random() < 0.5 else float(rng.uniform(0.3, 1.1))
    env.note(n=ns, L=L, folds=folds, nb=nb, lo=lo, hi=hi, minimal_sample_modes=least, cutoff=frac, cross=cross is not None)
    kw = dict(minimal_sample_modes=least, cutoff_above_wavenumber_fraction=frac, cross_depositions=cross)
    parts = {}
    bins = np.geomspace(lo, hi, nb + 1)
    for q in folds:
        parts[q] = [np.asarray(v, float) for v in one(deps[q], box, folding=q, wavenumber_bins=C(bins, "1/Mpc", -1),
                                                      cross_deposition=None if cross is None else cross[q])]
    used, unsure = {}, np.zeros(nb, bool)
    for q in sorted(folds):
        k, P, cnt = parts[q]
        u = cnt > (least if q != first else 0)
        if q != last:
            cut = 2.0 ** q * ns[q] / L
            if frac is not None:
                if not u.any():
                    env.trivial()
                    return
                cut = min(frac * k[u].max(), frac * cut)
            unsure |= np.abs(k - cut) < 1e-6 * cut
            u &= k < cut
        used[q] = u
    got_bins, k, P, track = f(deps, box, nb, wavenumber_range=C([lo, hi], "1/Mpc", -1), **kw)
    check(np.allclose(np.asarray(got_bins, float), bins, rtol=1e-9), "the edges of the bins are not equally spaced in the logarithm of the range")
    if not np.array_equal(np.asarray(got_bins, float), bins):
        for q in folds:
            again = one(deps[q], box, folding=q, wavenumber_bins=got_bins)
            unsure |= np.asarray(again[2]) != parts[q][2]
    k, P, track = (np.asarray(v, float) for v in (k, P, track))
    for j in range(nb):
        if unsure[j]:
            continue
        c = [(parts[q][2][j], -q) for q in folds if used[q][j]]
        if not c:
            check(P[j] == 0 and track[j] == 1 and np.isclose(k[j], 0.5 * (bins[j] + bins[j + 1]), rtol=1e-9), f"bin {j} has a value, but no folding is used there")
            continue
        q = -max(c)[1]
        check(track[j] == 2.0 ** q and np.isclose(k[j], parts[q][0][j], rtol=1e-9) and np.isclose(P[j], parts[q][1][j], rtol=1e-9, atol=1e-300),
              f"bin {j}: folding {track[j]}, wavenumber {k[j]}, power {P[j]}; folding {2.0 ** q} has the most modes there: {parts[q][0][j]}, {parts[q][1][j]}")
