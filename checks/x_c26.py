"""C26 at run time: colour maps against direct indexing of the map, weighted averages of the colours, and the image's own pixels."""
import importlib

import numpy as np

from vlib.execlib import Skip, case, check


def mod():
    return importlib.import_module("swiftsimio.visualisation.tools.cmaps")


def a_map(m, rng, grid):
    """A map that holds `grid`, through the public base class."""
    class Held(m.Cmap2D):
        def generate_color_map_grid(self):
            self._color_map_grid = grid
    return Held(name="held")


@case(quick=60)
def lookup(rng, env):
    m = mod()
    R, C = (int(v) for v in rng.choice([1, 2, 3, 5, 16, 250, 256], 2))
    grid = rng.random((R, C, 4)).astype("f4")
    shape = [(), (0,), (1,), (7,), (3, 4), (4, 3), (2, 3, 2)][int(rng.integers(1, 7))]

    def values(n):
        k = rng.integers(0, 5, shape)
        v = rng.random(shape)
        v = np.where(k == 1, rng.uniform(-2, 3, shape), v)
        v = np.where(k == 2, rng.choice([0.0, 1.0, -0.0, 1e-12, 1 - 1e-9], shape), v)
        v = np.where(k == 3, (rng.integers(0, max(n - 1, 1), shape) + 0.5) / max(n - 1, 1), v)
        return v.astype(str(rng.choice(["f8", "f8", "f4"])))
    h, v = values(R), values(C)
    form = ["array", "list", "tuple", "strided"][env.k % 4]
    env.note(rows=R, columns=C, shape=list(shape), form=form, first=h, second=v)
    if form == "list":
        ha, va = h.tolist(), v.tolist()
    elif form == "tuple":
        ha, va = tuple(h.tolist()), tuple(v.tolist())
    elif form == "strided" and h.ndim > 1:
        ha, va = np.asfortranarray(h), np.asfortranarray(v)
    else:
        ha, va = h.copy(), v.copy()
    if form in ("list", "tuple") and h.size == 0:
        env.trivial()
        return
    keep = grid.copy()
    got = np.asarray(a_map(m, rng, grid)(ha, va))
    check(got.shape == shape + (4,), f"values of shape {shape} give colours of shape {got.shape}")
    check(np.array_equal(grid, keep), "the map itself was changed")
    if isinstance(ha, np.ndarray):
        check(np.array_equal(ha, h) and np.array_equal(va, v), "the values were changed")

    def near(x, n):
        p = (n - 1) * np.clip(x.astype("f8"), 0, 1)
        e = 1e-4
        return [np.clip(np.floor(p + d), 0, n - 1).astype(int) for d in (-e, 0, e)]
    ok = np.zeros(shape, bool)
    for i in near(h, R):
        for j in near(v, C):
            ok |= (got == grid[i, j]).all(-1)
    check(ok.all(), "a value does not have the colour its place in the map has")


def colours(rng):
    n = int(rng.integers(1, 5))
    comps = int(rng.choice([3, 4]))
    col = np.round(rng.random((n, comps)), 3).tolist()
    xy = np.round(rng.random((n, 2)), 3)
    if rng.random() < 0.5:
        xy = np.round(xy)
    return col, xy.tolist()


def small_grid(m, rng, n):
    if not hasattr(m, "COLOR_MAP_GRID_SIZE"):
        return
    m.COLOR_MAP_GRID_SIZE = n


def blended(rng, env, name):
    m = mod()
    old = getattr(m, "COLOR_MAP_GRID_SIZE", None)
    col, xy = colours(rng)
    env.note(map=name, colors=col, coordinates=xy)
    try:
        small_grid(m, rng, int(rng.choice([2, 9, 20])))
        with np.errstate(all="ignore"):
            g = np.asarray(getattr(m, name)(colors=col, coordinates=xy).color_map_grid, float)
    finally:
        if old is not None:
            m.COLOR_MAP_GRID_SIZE = old
    check(g.ndim == 3 and g.shape[2] == 4, f"{name}: the grid has shape {g.shape}")
    c = np.array([list(x) + [1.0] * (4 - len(x)) for x in col])
    if name.endswith("HSV"):
        from matplotlib.colors import hsv_to_rgb, rgb_to_hsv
        c = np.concatenate([rgb_to_hsv(c[:, :3]), c[:, 3:]], 1)
    yy, xx = np.meshgrid(np.linspace(0, 1, g.shape[0]), np.linspace(0, 1, g.shape[1]), indexing="ij")
    w = np.stack([np.maximum(1 - np.hypot(xx - q[0], yy - q[1]), 0) for q in xy], -1)
    t = w.sum(-1)
    on = t > 1e-3
    want = (w[on] @ c) / t[on][:, None] / 1.00005
    tol = 2e-4
    if name.endswith("HSV"):
        # the hue may differ by the same part: bound what that does to the colour
        lo, hi = hsv_to_rgb(np.clip(want[:, :3] * (1 - 6e-5), 0, 1)), hsv_to_rgb(np.clip(want[:, :3] * (1 + 6e-5), 0, 1))
        want = np.concatenate([hsv_to_rgb(np.clip(want[:, :3], 0, 1)), want[:, 3:]], 1)
        tol = 2e-4 + np.concatenate([np.abs(hi - lo), np.zeros((len(want), 1))], 1) * 6
    check(((g[on] >= -1e-6) & (g[on] <= 1 + 1e-6)).all(), f"{name}: a component of a colour is outside [0, 1]")
    check((np.abs(g[on] - want) <= tol).all(), f"{name}: the map is not the average of the colours weighted by nearness")


@case(quick=12)
def blended_rgb(rng, env):
    blended(rng, env, "LinearSegmentedCmap2D")


@case(quick=12)
def blended_hsv(rng, env):
    blended(rng, env, "LinearSegmentedCmap2DHSV")


@case(quick=15)
def from_image(rng, env):
    try:
        from PIL import Image
    except ImportError:
        raise Skip("pillow is not installed")
    m = mod()
    mode = ["RGBA", "RGB", "L", "P", "LA"][env.k % 5]
    R, C = (int(v) for v in rng.integers(1, 12, 2))
    im = Image.fromarray(rng.integers(0, 256, (R, C, 4)).astype("u1"), "RGBA").convert(mode)
    path = env.path(f"map_{mode}.png")
    im.save(path)
    want = np.asarray(Image.open(path).convert("RGBA"), float) / 255
    i, j = rng.integers(0, R, 9), rng.integers(0, C, 9)
    env.note(mode=mode, rows=R, columns=C, i=i, j=j)
    got = np.asarray(m.ImageCmap2D(filename=path)((i + 1e-3) / max(R - 1, 1e-9) if R > 1 else i * 0.0, (j + 1e-3) / max(C - 1, 1e-9) if C > 1 else j * 0.0))
    check(got.shape == (9, 4), f"colours of shape {got.shape}")
    check(np.allclose(got, want[i, j], atol=1e-6), f"a map loaded from an image of mode {mode} does not have the colours of its pixels")
