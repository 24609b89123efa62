"""C17 periodic images."""
import numpy as np

from checks import x_c14, x_c15
from vlib import visx
from vlib.execlib import case, check, internal

NAMES = ["fast", "histogram", "reference", "renormalised", "subsampled"]


def draw_box(rng, d, small=True):
    b = np.where(rng.random(d) < 0.4, 1.0, rng.uniform(0.35 if small else 0.6, 2.3, d))
    return np.where(rng.random(d) < 0.2, 0.0, b)


def in_box(rng, n, b):
    """In [0, box): generic, near either face, exactly zero."""
    L = b if b > 0 else 1.0
    kind = rng.integers(0, 5, n)
    v = rng.random(n) * L
    v = np.where(kind == 1, 0.02 * rng.random(n) * L, v)
    v = np.where(kind == 2, L * (1 - 0.02 * rng.random(n)), v)
    v = np.where(kind == 3, rng.choice([0.0, 0.5 * L], n), v)
    return np.minimum(v, np.nextafter(L, 0))


def hmax(box):
    b = box[box > 0]
    return float(b.min()) if len(b) else 1.0


def draw(rng, n, res, box, gamma, style="any"):
    P = {a: in_box(rng, n, b) for a, b in zip("xyz", box)}
    P["m"] = rng.uniform(0.5, 2, n).astype("f4")
    hm = hmax(box)
    P["h"] = visx.draw_h(rng, n, res, gamma, style, hm)
    big = rng.random(n) < 0.25
    P["h"] = np.where(big, (rng.uniform(0.3, 0.99, n) * hm / gamma), P["h"]).astype("f4")
    return P


@case(quick=120)
def projection(rng, env):
    name = NAMES[env.k % len(NAMES)]
    res = int(rng.integers(1, 9))
    box = draw_box(rng, 2)
    n = int(rng.integers(1, 4))
    P = draw(rng, n, res, box, visx.G2, "resolved" if name == "reference" else "any")
    ok = ~visx.near_threshold(name, P["h"], res)
    P = {k: v[ok] for k, v in P.items()}
    env.note(backend=name, res=res, box=box, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, box)
    visx.compare_image(got, *visx.oracle_proj(name, P, res, box), f"{name}, periodic")


@case(quick=150)
def beyond_the_far_side(rng, env):
    """Images wider than the box by a fraction of it, kernels almost as wide as the box, particles next to either face."""
    name = NAMES[env.k % len(NAMES)]
    res = int(rng.integers(6, 12))
    box = 1 / (rng.integers(0, 3, 2) + rng.uniform(0.05, 0.95, 2))
    if rng.random() < 0.6:
        box[:] = box[0]
    P = {a: np.array([rng.choice([rng.uniform(0, 0.15), rng.uniform(0.85, 1)]) * b]) for a, b in zip("xy", box)}
    P["m"] = np.array([1.0], "f4")
    P["h"] = np.array([rng.uniform(0.9, 0.995) * box.min() / visx.G2], "f4")
    if visx.near_threshold(name, P["h"], res).any():
        return env.trivial()
    env.note(backend=name, res=res, box=box, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, box)
    visx.compare_image(got, *visx.oracle_proj(name, P, res, box), f"{name}, periodic")


@case(quick=60)
def beyond_the_far_side_depth(rng, env):
    res = int(rng.integers(4, 8))
    box = 1 / (rng.integers(0, 2, 3) + rng.uniform(0.05, 0.95, 3))
    if rng.random() < 0.6:
        box[:] = box[0]
    P = {a: np.array([rng.choice([rng.uniform(0, 0.15), rng.uniform(0.85, 1)]) * b]) for a, b in zip("xyz", box)}
    P["m"] = np.array([1.0], "f4")
    P["h"] = np.array([rng.uniform(0.9, 0.995) * box.min() / visx.G3], "f4")
    if visx.near_threshold("volume", P["h"], res).any():
        return env.trivial()
    zs = float(rng.random() * box[2])
    env.note(res=res, box=box, z_slice=zs, **P)
    got = x_c14.call(x_c14.backend("sph"), P, zs, res, res, box)
    visx.compare_image(got, *x_c14.oracle_sph(P, zs, res, res, box), "slice, periodic")
    got = x_c15.call(x_c15.backend(), P, res, box)
    visx.compare_image(got, *x_c15.oracle(P, res, box), "volume, periodic")


@case(quick=40)
def slice_(rng, env):
    xr, yr = (int(a) for a in rng.integers(1, 9, 2))
    box = draw_box(rng, 3)
    P = draw(rng, int(rng.integers(1, 4)), max(xr, yr), box, visx.G3)
    zs = float(rng.random() * (min(box[2], 1.0) if box[2] else 1))
    env.note(xres=xr, yres=yr, z_slice=zs, box=box, **P)
    got = x_c14.call(x_c14.backend("sph"), P, zs, xr, yr, box)
    visx.compare_image(got, *x_c14.oracle_sph(P, zs, xr, yr, box), "slice, periodic")


@case(quick=40)
def volume(rng, env):
    res = int(rng.integers(1, 7))
    box = draw_box(rng, 3)
    P = draw(rng, int(rng.integers(1, 3)), res, box, visx.G3)
    ok = ~visx.near_threshold("volume", P["h"], res)
    P = {k: v[ok] for k, v in P.items()}
    env.note(res=res, box=box, **P)
    got = x_c15.call(x_c15.backend(), P, res, box)
    visx.compare_image(got, *x_c15.oracle(P, res, box), "volume, periodic")


@case(quick=40)
def volume_reduced_depth(rng, env):
    f = internal("swiftsimio.visualisation.volume_render_backends.scatter", "scatter_limited_z", x=0, y=0, z=0, m=0, h=0, res=0, res_ratio_z=1,
                 box_x=0, box_y=0, box_z=0)
    ratio = int(rng.integers(1, 4))
    res = int(rng.integers(ratio, 8))
    box = draw_box(rng, 3)
    P = draw(rng, int(rng.integers(1, 3)), res, box, visx.G3)
    ok = ~visx.near_threshold("volume", P["h"], res) & ~visx.near_threshold("volume", P["h"], res // ratio)
    P = {k: v[ok] for k, v in P.items()}
    env.note(res=res, ratio=ratio, box=box, **P)
    got = x_c15.call(f, P, res, box, res_ratio_z=ratio)
    visx.compare_image(got, *x_c15.oracle(P, res, box, ratio), "volume of reduced depth resolution, periodic")


@case(quick=40)
def wrapping_and_mass(rng, env):
    """A box-sized image: adding box vectors before wrapping changes nothing; the total mass is conserved."""
    name = ["histogram", "renormalised", "subsampled", "fast"][env.k % 4]
    res = int(rng.integers(2, 9))
    n = int(rng.integers(1, 30))
    P = draw(rng, n, res, np.array([1.0, 1.0]), visx.G2, "small" if name in ("fast", "subsampled") and rng.random() < 0.7 else "any")
    ok = ~visx.near_threshold(name, P["h"], res) & (visx.G2 * P["h"] < 0.49)
    if name == "fast":
        ok &= visx.G2 * P["h"] * res < 1
    P = {k: v[ok] for k, v in P.items()}
    env.note(backend=name, res=res, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, (1.0, 1.0))
    tot, M = got.sum() / res ** 2, P["m"].astype(float).sum()
    check(abs(tot - M) <= (3e-3 if name.startswith("sub") else 3e-5) * M + 1e-12, f"{name}: total mass {tot} in a box-sized periodic image, the particles have {M}")
    # moving every particle by whole pixels moves the image
    s = int(rng.integers(0, res))
    Q = dict(P, x=np.mod(P["x"] + s / res, 1.0))
    Q["x"] = np.where(Q["x"] >= 1, 0.0, Q["x"])
    got2 = visx.call_proj(visx.proj_backend(name), Q, res, (1.0, 1.0))
    edge = np.abs(P["x"] * res - np.round(P["x"] * res)) < 1e-9
    if not edge.any():
        d = np.abs(np.roll(got, s, 0) - got2)
        check((d <= 2e-4 * got.max() + 1e-12).all(), f"{name}: moving all particles by {s} pixels through the periodic boundary changes the image by {d.max()}")
