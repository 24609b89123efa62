"""Shared helpers for the mask checks."""
import numpy as np

import swiftsimio as sw
from checks.x_c01 import rows
from vlib import snap


def mask_rows(m, group):
    v = np.asarray(getattr(m, group))
    return np.where(v)[0] if v.dtype == bool else rows(v)


def all_rows(m, groups):
    return {g: mask_rows(m, g) for g in groups}


def draw_region(rng, L):
    """Per-axis (lower, upper) floats or None, within [-L/2, 3L/2]."""
    out = []
    for l in L:
        u = rng.random()
        if u < 0.2:
            out.append(None)
            continue
        if u < 0.6:
            w = rng.random() * 0.4 * l
            a = rng.uniform(-0.5 * l, 1.5 * l - w)
            b = a + w
        elif u < 0.8:
            a, b = rng.uniform(-0.5 * l, 1.5 * l, 2)
        else:
            g = rng.choice([-0.5, 0.0, 0.25, 1 / 3, 0.5, 2 / 3, 0.75, 1.0, 1.5], 2) * l
            a, b = float(g[0]), float(g[1])
        out.append((float(a), float(b)))
    return out


def as_region(reg, m, unit=None):
    U = m.units.length if unit is None else unit
    a = m.metadata.a
    return [None if r is None else [sw.cosmo_quantity(x, m.units.length, comoving=True, scale_factor=a, scale_exponent=1).to(U)
                                    for x in r] for r in reg]


def inside(pos, reg, L, eps=1e-9):
    """Strictly inside the region modulo the box (an axis of at least a box length is unconstrained)."""
    ok = np.ones(len(pos), bool)
    for ax, r in enumerate(reg):
        if r is None:
            continue
        a, b = r
        l = L[ax]
        if b - a >= l * (1 - 1e-12) or a - b > l * (1 + 1e-12):
            continue
        if b < a:
            b += l  # inverted bounds wrap around the box (to nothing when exactly one box apart)
        x = pos[:, ax]
        hit = np.zeros(len(pos), bool)
        for k in range(-4, 5):
            hit |= (x + k * l > a + eps * l) & (x + k * l < b - eps * l)
        ok &= hit
    return ok


def draw_snapshot(rng, path, minmax=None, drift=None, **kw):
    cnt = {p: int(rng.choice([0, 1, 6, 30, 80])) for p in (0, 1, 4)}
    if rng.random() < 0.4:
        cnt[int(rng.choice([2, 3, 5, 6]))] = int(rng.choice([1, 6, 30]))
    if not any(cnt.values()):
        cnt[0] = 7
    dims = [int(x) for x in rng.integers(1, 5, 3)]
    box = [float(x) for x in rng.choice([1.0, 2.5, 100.0, 0.3], 3)] if rng.random() < 0.5 else [float(rng.choice([1.0, 25.0]))] * 3
    mm = bool(rng.random() < 0.6) if minmax is None else minmax
    dr = (0.4 if mm else 0.09) if drift is None else drift
    info = snap.build(path, rng, counts=cnt, dims=dims, box=box, minmax=mm, drift=dr, a=float(rng.choice([1.0, 0.5, 0.1])),
                      empty_cells=float(rng.choice([0.0, 0.5])), offsets_name=str(rng.choice(["OffsetsInFile", "Offsets"])), **kw)
    info["minmax"] = mm
    info["counts"] = cnt
    return info
