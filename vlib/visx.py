"""Oracles for the deposition functions: direct kernel sums over all periodic images, in double precision."""
import importlib
import sys

import numpy as np

from vlib.execlib import Skip, check

G2, G3 = 1.897367, 1.936492
DITHER = 32  # the subsampled backends promise at least 32 by 32 evaluations of a kernel: none is further than this part of H away


def k2(r, H):
    q = r / H
    t = np.clip(1 - q, 0, None)
    return 7 / (np.pi * H ** 2) * t ** 4 * (1 + 4 * q)


def k3(r, H):
    q = r / H
    t = np.clip(1 - q, 0, None)
    return 21 / (2 * np.pi * H ** 3) * t ** 4 * (1 + 4 * q)


def ktol(k, r, H, rel=2e-5, delta=1e-6):
    """What single-precision evaluation may do to k(r, H): a relative error and a displacement of `delta`."""
    return rel * k(r, H) + k(np.maximum(r - delta, 0), H) - k(r + delta, H)


def images(box, H, p, hi=1.0):
    """All shifts k for which p + k*box is within H of [0, hi] (only 0 when not periodic)."""
    if box == 0:
        return [0]
    a = int(np.floor((-H - p) / box)) - 1
    b = int(np.ceil((hi + H - p) / box)) + 1
    return list(range(a, b + 1))


def centres(res):
    return (np.arange(res) + 0.5) / res


def proj_backend(name, parallel=False):
    m = importlib.import_module("swiftsimio.visualisation.projection_backends")
    return getattr(m, "backends_parallel" if parallel else "backends")[name]


def call_proj(f, P, res, box):
    return np.asarray(f(x=P["x"].copy(), y=P["y"].copy(), m=P["m"].copy(), h=P["h"].copy(), res=int(res), box_x=float(box[0]),
                        box_y=float(box[1])), float)


def oracle_proj(name, P, res, box):
    """-> image, tolerance (per pixel), skip mask of particles near a threshold is the caller's business."""
    img = np.zeros((res, res))
    tol = np.zeros((res, res))
    c = centres(res)
    for x0, y0, m, h in zip(*[P[k].astype(float) for k in ("x", "y", "m", "h")]):
        H = G2 * h
        for i in images(box[0], H + 2 / res, x0):
            for j in images(box[1], H + 2 / res, y0):
                x, y = x0 + i * box[0], y0 + j * box[1]
                px, py = int(np.floor(res * x)), int(np.floor(res * y))
                inside = 0 <= px < res and 0 <= py < res
                if name == "histogram":
                    if inside:
                        img[px, py] += m * res * res
                        tol[px, py] += 1e-9 * m * res * res
                    continue
                if name == "reference":
                    if np.int32(1.0 + H * res) <= 2:
                        continue
                elif name in ("fast", "renormalised"):
                    if H * res < 1:
                        if inside:
                            img[px, py] += m * res * res
                            tol[px, py] += 1e-5 * m * res * res
                        continue
                r = np.sqrt((c[:, None] - x) ** 2 + (c[None, :] - y) ** 2)
                K = k2(r, H)
                if name == "renormalised":
                    n = int(np.ceil(H * res)) + 2
                    cx = (np.arange(px - n, px + n + 1) + 0.5) / res
                    cy = (np.arange(py - n, py + n + 1) + 0.5) / res
                    K = K * res * res / k2(np.sqrt((cx[:, None] - x) ** 2 + (cy[None, :] - y) ** 2), H).sum()
                if name.startswith("subsampled"):
                    def share(x, y):
                        """Mean of the kernel over every pixel, by 96 x 96 points in each."""
                        s = (np.arange(96) + 0.5) / 96
                        cs = (c[:, None] - 0.5 / res + s[None, :] / res).ravel()
                        sel, sely = np.abs(cs - x) < H, np.abs(cs - y) < H
                        if not (sel.any() and sely.any()):
                            return np.zeros((res, res))
                        full = np.zeros((len(cs), len(cs)))
                        full[np.ix_(sel, sely)] = k2(np.sqrt((cs[sel][:, None] - x) ** 2 + (cs[sely][None, :] - y) ** 2), H)
                        return full.reshape(res, 96, res, 96).mean((1, 3))

                    def small_share(x, y, n=256):
                        """The same for a kernel much smaller than a pixel: its mass, from points that follow the kernel."""
                        u = (np.arange(n) + 0.5) / n * 2 - 1
                        w = k2(np.sqrt(u[:, None] ** 2 + u[None, :] ** 2), 1.0)
                        w = w / w.sum() * res * res
                        K = np.zeros((res + 2, res + 2))
                        ix, iy = (np.clip(np.floor((v + u * H) * res), -1, res).astype(int) + 1 for v in (x, y))
                        np.add.at(K, (ix[:, None], iy[None, :]), w)
                        return K[1:-1, 1:-1]
                    if H * res <= 0.25:
                        # the kernel is laid down from a lattice of (at least 32 by 32) points across its width: a step of it may go to
                        # the wrong side of an edge
                        d = H / DITHER
                        K = small_share(x, y)
                        img += m * K
                        off = [np.abs(small_share(x + a * d, y + b * d) - K) for a in (-1, 0, 1) for b in (-1, 0, 1)]
                        tol += m * np.max(off, 0) + 3e-3 * m * res * res * (K > 0) + 1e-6 * m * res * res
                    else:
                        K = share(x, y)
                        img += m * K
                        peak = m * k2(0, max(H, 0.5 / res))
                        tol += 0.012 * peak * (K > 0) + 1e-6 * peak
                    continue
                img += m * K
                tol += m * ktol(k2, r, H) * (K / np.maximum(k2(r, H), 1e-300) if name == "renormalised" else 1)
    return img, tol


def near_threshold(name, h, res):
    w = G2 * h.astype(float) * res
    t = {"fast": [1.0], "renormalised": [1.0], "reference": [1.0, 2.0], "subsampled": [0.25], "subsampled_extreme": [0.25],
         "volume": [0.5], "histogram": [], "slice": []}[name]
    return np.array([any(abs(x - y) < 1e-3 for y in t) for x in w], bool)


def draw_axis(rng, n, res, lo=-0.4, hi=1.4):
    """Positions: generic, on pixel edges, on pixel centres, next to the image edges, outside."""
    kind = rng.integers(0, 5, n)
    v = rng.random(n)
    v = np.where(kind == 1, rng.integers(0, res + 1, n) / res, v)
    v = np.where(kind == 2, (rng.integers(0, res, n) + 0.5) / res, v)
    v = np.where(kind == 3, lo + (hi - lo) * rng.random(n), v)
    v = np.where(kind == 4, (rng.integers(0, res + 1, n) + 0.02 * (rng.random(n) - 0.5)) / res, v)
    return v


def draw_h(rng, n, res, gamma, style, hmax=None):
    w = np.where(rng.random(n) < 0.5, rng.uniform(0.05, 3.0, n), rng.uniform(1.0, 6.0, n))  # width in pixels
    if style == "small":
        w = rng.uniform(0.01, 0.24, n)
    if style == "resolved":
        w = rng.uniform(2.05, 8.0, n)
    h = w / res / gamma
    if hmax is not None:
        h = np.minimum(h, hmax / gamma * 0.98)
    return h.astype("f4")


def compare_image(got, want, tol, what):
    check(got.shape == want.shape, f"{what}: image has shape {got.shape}, not {want.shape}")
    check(np.isfinite(got).all(), f"{what}: image holds values that are not finite")
    d = np.abs(got - want)
    if (d > tol + 1e-9 * np.abs(want)).any():
        i = np.unravel_index(np.argmax(d - tol), d.shape)
        check(False, f"{what}: pixel {tuple(int(a) for a in i)} has {got[i]:.8g}, the particles contribute {want[i]:.8g} "
                     f"(tolerance {tol[i]:.2g})")
