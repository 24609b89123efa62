"""C15 volume rendering."""
import importlib

import numpy as np

from vlib import visx
from vlib.execlib import Skip, case, check, internal


def backend(parallel=False):
    m = importlib.import_module("swiftsimio.visualisation.volume_render_backends")
    return getattr(m, "backends_parallel" if parallel else "backends")["scatter"]


def call(f, P, res, box, **kw):
    return np.asarray(f(x=P["x"].copy(), y=P["y"].copy(), z=P["z"].copy(), m=P["m"].copy(), h=P["h"].copy(), res=int(res), box_x=float(box[0]), box_y=float(box[1]),
                        box_z=float(box[2]), **kw), float)


def oracle(P, res, box, ratio=1):
    R = (res, res, res // ratio)
    img, tol = np.zeros(R), np.zeros(R)
    c = [(np.arange(r) + 0.5) / r for r in R]
    vol = R[0] * R[1] * R[2]
    for x0, y0, z0, m, h in zip(*[P[k].astype(float) for k in ("x", "y", "z", "m", "h")]):
        H = visx.G3 * h
        for i in visx.images(box[0], H, x0):
            for j in visx.images(box[1], H, y0):
                for k in visx.images(box[2], H, z0):
                    p = [x0 + i * box[0], y0 + j * box[1], z0 + k * box[2]]
                    if H * R[0] < 0.5 or H * R[2] < 0.5:
                        q = tuple(int(np.floor(r * a)) for r, a in zip(R, p))
                        if all(0 <= a < r for a, r in zip(q, R)):
                            img[q] += m * vol
                            tol[q] += 1e-5 * m * vol
                        continue
                    d = np.sqrt((c[0][:, None, None] - p[0]) ** 2 + (c[1][None, :, None] - p[1]) ** 2 + (c[2][None, None, :] - p[2]) ** 2)
                    img += m * visx.k3(d, H)
                    tol += m * visx.ktol(visx.k3, d, H)
    return img, tol


def draw(rng, n, res, hmax=None, ratio=1):
    P = {a: visx.draw_axis(rng, n, res // ratio if a == "z" else res) for a in "xyz"}
    P["m"] = rng.uniform(0.5, 2, n).astype("f4")
    P["h"] = visx.draw_h(rng, n, res, visx.G3, "small" if rng.random() < 0.2 else "any", hmax)
    ok = ~visx.near_threshold("volume", P["h"], res) & ~visx.near_threshold("volume", P["h"], res // ratio)
    return {k: v[ok] for k, v in P.items()}


@case(quick=100)
def volume(rng, env):
    res = int(rng.integers(1, 11))
    P = draw(rng, int(rng.integers(0, 5)) if env.k % 2 else 1, res)
    env.note(res=res, **P)
    got = call(backend(), P, res, (0, 0, 0))
    visx.compare_image(got, *oracle(P, res, (0, 0, 0)), "volume")


@case(quick=60)
def volume_reduced_depth(rng, env):
    f = internal("swiftsimio.visualisation.volume_render_backends.scatter", "scatter_limited_z", x=0, y=0, z=0, m=0, h=0, res=0, res_ratio_z=1,
                 box_x=0, box_y=0, box_z=0)
    ratio = int(rng.integers(1, 5))
    res = int(rng.integers(ratio, 12))
    P = draw(rng, int(rng.integers(0, 5)) if env.k % 2 else 1, res, ratio=ratio)
    env.note(res=res, ratio=ratio, **P)
    got = call(f, P, res, (0, 0, 0), res_ratio_z=ratio)
    visx.compare_image(got, *oracle(P, res, (0, 0, 0), ratio), "volume of reduced depth resolution")


@case(quick=20)
def small_particles(rng, env):
    res = int(rng.integers(1, 11))
    n = int(rng.integers(1, 6))
    P = {a: rng.random(n) for a in "xyz"}
    P["m"] = rng.uniform(0.5, 2, n).astype("f4")
    P["h"] = visx.draw_h(rng, n, res, visx.G3, "small")
    env.note(res=res, **P)
    got = call(backend(), P, res, (0, 0, 0))
    check(abs(got.sum() / res ** 3 / P["m"].astype(float).sum() - 1) < 1e-5, "particles smaller than a voxel do not deposit their mass")


@case(quick=30)
def well_resolved(rng, env):
    """Kernels many voxels wide: the whole footprint, up to its edge."""
    res = int(rng.integers(12, 24))
    P = {a: rng.uniform(-0.2, 1.2, 1) for a in "xyz"}
    P["m"] = rng.uniform(0.5, 2, 1).astype("f4")
    P["h"] = (rng.uniform(0.15, 0.7, 1) / visx.G3).astype("f4")
    env.note(res=res, **P)
    got = call(backend(), P, res, (0, 0, 0))
    visx.compare_image(got, *oracle(P, res, (0, 0, 0)), "volume")
