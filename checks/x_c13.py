"""C13 projection backends."""
import numpy as np

from vlib import visx
from vlib.execlib import Skip, case, check, internal

NAMES = ["fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme"]


def particles(rng, name, n, res, style="any"):
    P = dict(x=visx.draw_axis(rng, n, res), y=visx.draw_axis(rng, n, res), m=rng.uniform(0.5, 2, n).astype("f4"),
             h=visx.draw_h(rng, n, res, visx.G2, style))
    if name == "reference" and style == "any":
        P["h"] = visx.draw_h(rng, n, res, visx.G2, "resolved" if rng.random() < 0.8 else "any")
    ok = ~visx.near_threshold(name, P["h"], res)
    return {k: v[ok] for k, v in P.items()}


def one(rng, env, name, style="any"):
    res = int(rng.integers(1, 14))
    n = int(rng.integers(0, 7)) if env.k % 3 else 1
    P = particles(rng, name, n, res, style)
    env.note(backend=name, res=res, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, (0.0, 0.0))
    want, tol = visx.oracle_proj(name, P, res, (0.0, 0.0))
    visx.compare_image(got, want, tol, name)
    return P, res, got


@case(quick=60)
def fast(rng, env):
    one(rng, env, "fast")


@case(quick=40)
def histogram(rng, env):
    one(rng, env, "histogram")


@case(quick=40)
def reference(rng, env):
    one(rng, env, "reference")


@case(quick=50)
def renormalised(rng, env):
    one(rng, env, "renormalised")


@case(quick=20)
def subsampled(rng, env):
    one(rng, env, "subsampled")


@case(quick=14)
def subsampled_extreme(rng, env):
    one(rng, env, "subsampled_extreme")


@case(quick=40)
def one_particle_mass(rng, env):
    """Whole mass: a particle whose support lies in the image, or that is smaller than a pixel, wherever in the pixel."""
    name = ["histogram", "renormalised", "subsampled", "subsampled_extreme", "fast"][env.k % 5]
    res = int(rng.integers(3, 16))
    small = rng.random() < 0.6 or name == "fast"
    wpix = rng.uniform(0.01, 0.24 if name.startswith("sub") else 0.98) if small else rng.uniform(1.02, res * 0.2 + 1.03)
    H = wpix / res
    def draw():
        if rng.random() < 0.5:
            v = (rng.integers(1, res) + rng.choice([-1, 1]) * 0.5 * H * res * rng.random()) / res
        else:
            v = rng.random()
        lo = max(H, 1 / res) + 1e-6
        return min(max(v, lo), 1 - lo)
    P = dict(x=np.array([draw()]), y=np.array([draw()]), m=np.array([1.5], "f4"), h=np.array([H / visx.G2], "f4"))
    if (H * 2 + 2 / res > 1) or visx.near_threshold(name, P["h"], res).any():
        env.trivial()
        return
    env.note(backend=name, res=res, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, (0.0, 0.0))
    tot = got.sum() / res ** 2
    rel = dict(subsampled=2e-3, subsampled_extreme=2e-3).get(name, 2e-5)
    check(abs(tot / 1.5 - 1) < rel, f"{name}: a particle of mass 1.5 well inside the image deposits {tot}")
    ix, iy = np.nonzero(got)
    for a, v in ((ix, P["x"][0]), (iy, P["y"][0])):
        lo, hi = a / res, (a + 1) / res
        pix = int(np.floor(res * v))
        bad = ((lo > v + H * (1 + 1e-6)) | (hi < v - H * (1 + 1e-6))) & (a != pix)
        check(not bad.any(), f"{name}: a pixel outside the support received mass")


def kern(mod, name):
    return internal("swiftsimio.visualisation." + mod, name)


@case(quick=30)
def kernels(rng, env):
    ks = [("projection_backends.kernels", "kernel_single_precision", 2), ("projection_backends.kernels", "kernel_double_precision", 2),
          ("slice_backends.sph", "kernel", 3)]
    mod, name, d = ks[env.k % 3]
    f = kern(mod, name)
    dt = np.float32 if "single" in name else np.float64
    H = dt(rng.uniform(0.01, 3.0))
    r = np.concatenate([rng.random(40) * 1.4 * H, [0, H * 0.5, H * (1 - 1e-5), H, H * (1 + 1e-5), 2 * H]]).astype(dt)
    env.note(kernel=name, H=float(H), r=r)
    got = np.array([float(f(x, H)) for x in r])
    K = visx.k2 if d == 2 else visx.k3
    want = K(r.astype(float), float(H))
    check((got >= 0).all(), f"{name}: negative value")
    check((got[r >= H] <= 1e-12 * (visx.k2 if d == 2 else visx.k3)(0, float(H))).all(), f"{name}: not zero beyond its support")
    e = 2e-4 if dt is np.float32 else 1e-6
    check(np.allclose(got, want, rtol=e, atol=e * K(0, float(H)) * (0.01 if dt is np.float64 else 1)), f"{name}: differs from the Wendland C2 kernel: {got - want}")


@case(quick=30)
def dtype_mix(rng, env):
    """Inputs of float32 positions, integer-valued resolution types and empty particle sets."""
    name = NAMES[env.k % len(NAMES)]
    res = int(rng.integers(1, 9))
    P = {k: v[:0] for k, v in particles(rng, name, 2, res).items()}
    env.note(backend=name, res=res)
    got = visx.call_proj(visx.proj_backend(name), P, res, (0.0, 0.0))
    check(got.shape == (res, res) and not got.any(), f"{name}: image without particles is not empty")


@case(quick=45)
def well_resolved(rng, env):
    """Kernels many pixels wide: the whole footprint, up to its edge."""
    name = ["fast", "renormalised", "reference"][env.k % 3]
    res = int(rng.integers(20, 64))
    n = 2
    P = dict(x=rng.uniform(-0.3, 1.3, n), y=rng.uniform(-0.3, 1.3, n), m=rng.uniform(0.5, 2, n).astype("f4"),
             h=(rng.uniform(0.15, 0.9, n) / visx.G2).astype("f4"))
    env.note(backend=name, res=res, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, (0, 0))
    visx.compare_image(got, *visx.oracle_proj(name, P, res, (0, 0)), name)


@case(quick=40)
def small_near_an_edge(rng, env):
    """Particles smaller than a pixel whose support crosses one of its edges, or just does not: shared by the area covered."""
    name = ["subsampled", "subsampled_extreme"][env.k % 2]
    res = int(rng.integers(2, 9))
    n = 2
    H = (rng.uniform(0.02, 0.245, n) / res / visx.G2).astype("f4")
    w = H.astype(float) * visx.G2

    def axis():
        edge = rng.integers(0, res + 1, n) / res + rng.choice([-1, 1], n) * rng.uniform(0, 1.2, n) * w
        return np.where(rng.random(n) < 0.7, edge, rng.random(n))
    P = dict(x=axis(), y=axis(), m=rng.uniform(0.5, 2, n).astype("f4"), h=H)
    env.note(backend=name, res=res, **P)
    got = visx.call_proj(visx.proj_backend(name), P, res, (0.0, 0.0))
    visx.compare_image(got, *visx.oracle_proj(name, P, res, (0.0, 0.0)), name)
