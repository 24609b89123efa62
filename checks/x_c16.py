"""C16 parallel = serial."""
import os
import subprocess
import sys

import numpy as np

from checks import x_c14, x_c15
from vlib import visx
from vlib.execlib import Skip, case, check, internal

NAMES = ["fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme"]
T = 8  # workers in this process


def count(k, rng):
    ns = list(range(0, 2 * T + 2)) + [3 * T - 1, 3 * T, 3 * T + 1, 100, 257]
    return ns[k % len(ns)] if k < len(ns) else int(rng.integers(0, 300))


def close(a, b, what):
    check(a.shape == b.shape, f"{what}: the parallel image has shape {a.shape}, the serial one {b.shape}")
    s = np.abs(b).max() if b.size else 0
    d = np.abs(a - b)
    check(np.isfinite(a).all() and (d <= 2e-5 * s).all(), f"{what}: the parallel image differs from the serial one by {d.max() if d.size else 0} (maximum {s})")


def parts(rng, n, gamma, res):
    # every particle in a pixel of its own weight: a particle passed twice or not at all changes the image
    P = dict(x=rng.random(n), y=rng.random(n), z=rng.random(n), m=rng.uniform(0.5, 2, n).astype("f4"),
             h=(rng.uniform(0.3, 3.2, n) / res / gamma).astype("f4"))
    return P


def proj(rng, env, name):
    n = count(env.k, rng)
    res = int(rng.integers(1, 9))
    P = parts(rng, n, visx.G2, res)
    box = (1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0)
    env.note(backend=name, n=n, res=res, **P)
    close(visx.call_proj(visx.proj_backend(name, True), P, res, box), visx.call_proj(visx.proj_backend(name), P, res, box), f"{name}, {n} particles")


def _mk(nm):
    def f(rng, env):
        proj(rng, env, nm)
    f.__name__ = "projection_" + nm
    f.__module__ = __name__
    return f


for _n in NAMES:
    globals()["projection_" + _n] = case(quick=30, thorough=120)(_mk(_n))


@case(quick=30, thorough=120)
def slice_sph(rng, env):
    n = count(env.k, rng)
    xr, yr = (int(a) for a in rng.integers(1, 9, 2))
    P = parts(rng, n, visx.G3, max(xr, yr))
    box = (1.0, 1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0, 0.0)
    env.note(n=n, xres=xr, yres=yr, **P)
    close(x_c14.call(x_c14.backend("sph", True), P, 0.5, xr, yr, box), x_c14.call(x_c14.backend("sph"), P, 0.5, xr, yr, box), f"slice, {n} particles")


@case(quick=20, thorough=80)
def slice_nearest(rng, env):
    n = max(1, count(env.k, rng))
    xr, yr = (int(a) for a in rng.integers(1, 9, 2))
    P = parts(rng, n, visx.G3, max(xr, yr))
    box = (1.0, 1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0, 0.0)
    env.note(n=n, xres=xr, yres=yr, **P)
    close(x_c14.call(x_c14.backend("nearest_neighbours", True), P, 0.5, xr, yr, box), x_c14.call(x_c14.backend("nearest_neighbours"), P, 0.5, xr, yr, box),
          f"nearest-neighbour slice, {n} particles")


@case(quick=30, thorough=120)
def volume(rng, env):
    n = count(env.k, rng)
    res = int(rng.integers(1, 8))
    P = parts(rng, n, visx.G3, res)
    box = (1.0, 1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0, 0.0)
    env.note(n=n, res=res, **P)
    close(x_c15.call(x_c15.backend(True), P, res, box), x_c15.call(x_c15.backend(), P, res, box), f"volume, {n} particles")


@case(quick=20, thorough=80)
def volume_reduced_depth(rng, env):
    f = internal("swiftsimio.visualisation.volume_render_backends.scatter", "scatter_limited_z", x=0, y=0, z=0, m=0, h=0, res=0, res_ratio_z=1,
                 box_x=0, box_y=0, box_z=0)
    g = internal("swiftsimio.visualisation.volume_render_backends.scatter", "scatter_parallel", x=0, y=0, z=0, m=0, h=0, res=0, res_ratio_z=1,
                 box_x=0, box_y=0, box_z=0)
    n = count(env.k, rng)
    ratio = int(rng.integers(2, 4))
    res = int(rng.integers(ratio, 9))
    P = parts(rng, n, visx.G3, res)
    box = (1.0, 1.0, 1.0) if rng.random() < 0.5 else (0.0, 0.0, 0.0)
    env.note(n=n, res=res, ratio=ratio, **P)
    close(x_c15.call(g, P, res, box, res_ratio_z=ratio), x_c15.call(f, P, res, box, res_ratio_z=ratio), f"volume of reduced depth, {n} particles")


@case(quick=30, thorough=120)
def power_spectrum(rng, env):
    ks = dict(x=0, y=0, z=0, m=0, res=0, fold=0, box_x=0, box_y=0, box_z=0)
    f = internal("swiftsimio.visualisation.power_spectrum", "deposit", **ks)
    g = internal("swiftsimio.visualisation.power_spectrum", "deposit_parallel", **ks)
    n = count(env.k, rng)
    res = int(rng.integers(1, 8))
    P = parts(rng, n, visx.G3, res)
    env.note(n=n, res=res, **P)
    kw = dict(x=P["x"], y=P["y"], z=P["z"], m=P["m"], res=res, fold=2.0 ** int(rng.integers(0, 3)), box_x=1.0, box_y=1.0, box_z=1.0)
    close(np.asarray(g(**kw), float), np.asarray(f(**kw), float), f"power spectrum deposit, {n} particles")


@case(quick=0, thorough=4)
def other_worker_counts(rng, env):
    """The same with another number of workers, in a process of its own."""
    t = [3, 5, 1, 2][env.k % 4]
    env.note(workers=t)
    code = f"""
import sys
import numpy as np
from checks import x_c16
x_c16.T = {t}
from vlib.execlib import Env, rng_for, Violation
for k in range({2 * t + 6}):
    e = Env('.', 'quick'); e.k = k
    try:
        x_c16.proj(rng_for('w', {env.k}, k), e, 'histogram')
        x_c16.proj(rng_for('w', {env.k}, k), e, 'fast')
    except Violation as v:
        print('VIOLATED', v); sys.exit(0)
print('fine')
"""
    en = dict(os.environ, NUMBA_NUM_THREADS=str(t))
    r = subprocess.run([sys.executable, "-c", code], env=en, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, timeout=160)
    if "VIOLATED" in r.stdout:
        check(False, f"with {t} workers: " + r.stdout.split("VIOLATED", 1)[1].strip()[:300])
    if "fine" not in r.stdout:
        raise Skip(f"no answer with {t} workers: {r.stderr[-200:]}")
