"""C14 slices."""
import importlib

import numpy as np

from vlib import visx
from vlib.execlib import case, check


def backend(name, parallel=False):
    m = importlib.import_module("swiftsimio.visualisation.slice_backends")
    return getattr(m, "backends_parallel" if parallel else "backends")[name]


def call(f, P, z, xr, yr, box):
    return np.asarray(f(x=P["x"].copy(), y=P["y"].copy(), z=P["z"].copy(), m=P["m"].copy(), h=P["h"].copy(), z_slice=float(z), xres=int(xr), yres=int(yr),
                        box_x=float(box[0]), box_y=float(box[1]), box_z=float(box[2])), float)


def oracle_sph(P, zs, xr, yr, box):
    res = max(xr, yr)
    img = np.zeros((xr, yr))
    tol = np.zeros((xr, yr))
    cx, cy = (np.arange(xr) + 0.5) / res, (np.arange(yr) + 0.5) / res
    for x0, y0, z0, m, h in zip(*[P[k].astype(float) for k in ("x", "y", "z", "m", "h")]):
        H = visx.G3 * h
        for i in visx.images(box[0], H, x0):
            for j in visx.images(box[1], H, y0):
                for k in visx.images(box[2], H, z0 - zs, 0.0):
                    dz = z0 + k * box[2] - zs
                    r = np.sqrt((cx[:, None] - x0 - i * box[0]) ** 2 + (cy[None, :] - y0 - j * box[1]) ** 2 + dz * dz)
                    img += m * visx.k3(r, H)
                    tol += m * visx.ktol(visx.k3, r, H)
    return img, tol


def draw(rng, n, res, zs, hmax=None):
    P = dict(x=visx.draw_axis(rng, n, res), y=visx.draw_axis(rng, n, res), m=rng.uniform(0.5, 2, n).astype("f4"),
             h=visx.draw_h(rng, n, res, visx.G3, "any", hmax))
    P["z"] = zs + rng.uniform(-1.2, 1.2, n) * visx.G3 * P["h"]
    far = rng.random(n) < 0.2
    P["z"] = np.where(far, rng.uniform(-0.5, 1.5, n), P["z"])
    return P


@case(quick=120)
def sph(rng, env):
    xr, yr = (int(a) for a in rng.integers(1, 14, 2))
    if rng.random() < 0.5:
        yr = xr
    zs = float(rng.uniform(-0.2, 1.2))
    P = draw(rng, int(rng.integers(0, 6)) if env.k % 2 else 1, max(xr, yr), zs)
    env.note(z_slice=zs, xres=xr, yres=yr, **P)
    got = call(backend("sph"), P, zs, xr, yr, (0, 0, 0))
    want, tol = oracle_sph(P, zs, xr, yr, (0, 0, 0))
    visx.compare_image(got, want, tol, "sph slice")


@case(quick=60)
def well_resolved(rng, env):
    """Kernels many pixels wide, away from the plane: the whole footprint, up to its edge."""
    xr, yr = (int(a) for a in rng.integers(20, 64, 2))
    if rng.random() < 0.5:
        yr = xr
    zs = float(rng.uniform(0, 1))
    n = 2
    P = dict(x=rng.random(n), y=rng.random(n), m=rng.uniform(0.5, 2, n).astype("f4"), h=(rng.uniform(0.15, 0.6, n) / visx.G3).astype("f4"))
    P["z"] = zs + rng.choice([-1, 1], n) * rng.uniform(0.0, 0.99, n) * visx.G3 * P["h"]
    env.note(z_slice=zs, xres=xr, yres=yr, **P)
    got = call(backend("sph"), P, zs, xr, yr, (0, 0, 0))
    want, tol = oracle_sph(P, zs, xr, yr, (0, 0, 0))
    visx.compare_image(got, want, tol, "sph slice")


@case(quick=80)
def nearest(rng, env):
    xr, yr = (int(a) for a in rng.integers(1, 10, 2))
    per = rng.random(3) < 0.5
    if env.k % 3 == 0:
        per[:] = True
    box = np.where(per, rng.uniform(0.4, 1.6, 3), 0.0)
    n = int(rng.integers(1, 30))
    P = {a: rng.random(n) * (box[i] if per[i] else 1.2) for i, a in enumerate("xyz")}
    if rng.random() < 0.3:  # a caller may also pass particles that are not wrapped
        for i, a in enumerate("xyz"):
            if per[i]:
                P[a] = P[a] + rng.integers(-1, 2, n) * box[i]
    P["m"] = rng.uniform(0.5, 2, n).astype("f4")
    P["h"] = rng.uniform(0.05, 0.3, n).astype("f4")
    zs = float(rng.uniform(0, 1.0) * (box[2] if per[2] else 1))
    env.note(z_slice=zs, xres=xr, yres=yr, box=box, **P)
    got = call(backend("nearest_neighbours"), P, zs, xr, yr, box)
    res = max(xr, yr)
    check(got.shape == (xr, yr), f"nearest neighbours: image has shape {got.shape}")
    val = P["m"].astype(float) / P["h"].astype(float) ** 3
    for i in range(xr):
        for j in range(yr):
            p = [(i + 0.5) / res, (j + 0.5) / res, zs]
            d2 = np.zeros(n)
            for a in range(3):
                d = np.abs(P["xyz"[a]] - p[a])
                if per[a]:
                    d = np.mod(d, box[a])
                    d = np.minimum(d, box[a] - d)
                d2 += d * d
            best = np.flatnonzero(d2 <= d2.min() * (1 + 1e-9) + 1e-18)
            check(any(abs(got[i, j] - val[b]) <= 1e-4 * val[b] for b in best),
                  f"nearest neighbours: pixel ({i},{j}) has {got[i, j]}, the nearest particle has {val[best]}")


@case(quick=20)
def beyond_the_plane(rng, env):
    """Kernels that do not reach the slice plane contribute nothing."""
    res = int(rng.integers(1, 10))
    P = draw(rng, 5, res, 0.5)
    H = visx.G3 * P["h"]
    P["z"] = 0.5 + rng.choice([-1, 1], 5) * H * rng.uniform(1.0001, 2, 5)
    env.note(res=res, **P)
    got = call(backend("sph"), P, 0.5, res, res, (0, 0, 0))
    check(not got.any(), "particles that do not reach the slice contribute to it")
