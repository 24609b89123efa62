"""C18 preparation of coordinates, regions, boxes and units; the dataset is left alone."""
import numpy as np
import unyt

from checks import x_c14, x_c15
from vlib import snap, visx
from vlib.execlib import Skip, case, check, internal

EPS = 1e-9


def dataset(rng, env, *, cubic=False, n=None, unwrapped=None):
    import swiftsimio as sw
    L = float(rng.choice([1.0, 2.5, 0.7]))
    box = np.array([L] * 3) if cubic or rng.random() < 0.5 else L * np.round(rng.uniform(0.6, 1.8, 3), 2)
    a = float(rng.choice([1.0, 0.5, 0.25]))
    n = int(rng.integers(1, 12)) if n is None else n
    move = rng.random() < 0.5 if unwrapped is None else unwrapped
    shift = rng.integers(-1, 2, (n, 3)) * (rng.random((n, 1)) < 0.4) if move else np.zeros((n, 3))
    p = env.path("s.hdf5")
    info = snap.build(p, rng, counts={0: n, 1: 5}, box=box, a=a, dims=(2, 2, 2), drift=0, fill=lambda w: w + shift[:len(w)] * box if len(w) == n else w,
                      chunked=False, edge=0.02)
    d = sw.load(p)
    return d, info, box, a


def arr(x):
    return np.asarray(x.v if hasattr(x, "v") else x, float)


class State:
    """Bit-for-bit state of every loaded field."""

    def __init__(self, data, extra=()):
        self.d = data
        self.f = {}
        for k in ("coordinates", "masses", "smoothing_lengths", "densities", "temperatures", "internal_energies", "particle_ids"):
            self.f[k] = self.snap(getattr(data, k))
        self.e = [(x, self.snap(x)) for x in extra if x is not None]
        self.box = self.snap(data.metadata.boxsize)

    @staticmethod
    def snap(v):
        return (np.array(v).tobytes(), str(v.dtype), str(v.units), v.comoving, str(v.cosmo_factor), v.valid_transform)

    def same(self, what):
        for k, v in self.f.items():
            check(self.snap(getattr(self.d, k)) == v, f"{what} changed the field {k} of the dataset")
        check(self.snap(self.d.metadata.boxsize) == self.box, f"{what} changed the box size of the metadata")
        for x, v in self.e:
            check(self.snap(x) == v, f"{what} changed its argument")


def rotation(rng):
    q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if np.linalg.det(q) < 0:
        q[0] = -q[0]
    return q


def region(rng, d, box, kind, cubic=False, depth=False):
    """-> cosmo_array or None, numeric bounds."""
    from swiftsimio import cosmo_array
    if kind == "none":
        return None, np.array([0, box[0], 0, box[1], 0, box[2]]), False
    if cubic:
        s = float(rng.uniform(0.2, 1.0) * box.min())
        lo = rng.uniform(-0.3, 0.8, 3) * box
        b = np.array([lo[0], lo[0] + s, lo[1], lo[1] + s, lo[2], lo[2] + s])
        depth = True
    else:
        lo = rng.uniform(-0.3, 0.8, 3) * box
        hi = lo + rng.uniform(0.15, 1.0, 3) * box
        if rng.random() < 0.15:  # more than the box
            hi[0] = lo[0] + 1.4 * box[0]
        b = np.array([lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]])
    if not depth:
        nb = b[:4]
    else:
        nb = b
    bs = d.metadata.boxsize
    reg = cosmo_array(nb, bs.units, comoving=True, cosmo_factor=bs.cosmo_factor)
    if rng.random() < 0.3:
        reg = reg.to_physical()
    if rng.random() < 0.3:
        reg = reg.to("kpc")
    return reg, b, depth


def field(d, name, rng):
    """(values in file units, comoving a-exponent of the value, frame)"""
    v = getattr(d.gas, name)
    return v


def setup(rng, env, cubic=False, depth=None, rot=None):
    d, info, box, a = dataset(rng, env, cubic=cubic)
    g = d.gas
    periodic = bool(rng.random() < 0.6)
    rot = (rng.random() < 0.4) if rot is None else rot
    R = c = None
    if rot:
        periodic = False
        R = rotation(rng)
        bs = d.metadata.boxsize
        c = bs * rng.uniform(0.2, 0.8)
        if rng.random() < 0.3:
            c = c.to_physical()
    name = ["masses", "densities", "temperatures", "masses_phys"][int(rng.integers(4))]
    if name == "masses_phys":
        g.extra = g.masses.to_physical()
        name = "extra"
    if rng.random() < 0.25:
        g.coordinates = g.coordinates.to_physical()
    if rng.random() < 0.25:
        g.smoothing_lengths = g.smoothing_lengths.to_physical()
    if rng.random() < 0.25:
        g.smoothing_lengths = g.smoothing_lengths.to("kpc")
    g.smoothing_lengths = g.smoothing_lengths.astype("f8") if rng.random() < 0.2 else g.smoothing_lengths
    mask = None
    if rng.random() < 0.3:
        mask = rng.random(len(g.masses)) < 0.6
    return d, g, box, a, periodic, R, c, name, mask


def prepared(g, box, a, R, c, mask, periodic):
    """Comoving positions (file units), smoothing lengths, as plain arrays, before the region is applied."""
    u = g.metadata.boxsize.units
    x = g.coordinates.to_comoving().to_value(u)
    h = g.smoothing_lengths.to_comoving().to_value(u)
    if R is not None:
        cc = c.to_comoving().to_value(u)
        x = (R @ (x - cc).T).T + cc
    return np.asarray(x, float), np.asarray(h, float)


def values(g, name):
    v = getattr(g, name)
    return v, np.asarray(v.v, float)


def compare(img, want, tol, v, a, power, u, what):
    """img: library output; want: sum of (value x kernel per comoving length**power in units u)."""
    check(hasattr(img, "comoving"), f"{what}: the image is not a cosmo_array")
    check(img.comoving == v.comoving, f"{what}: image frame comoving={img.comoving}, the projected quantity has {v.comoving}")
    un = v.units / u ** power
    check(img.units.dimensions == un.dimensions, f"{what}: image has units {img.units}")
    fac = 1.0 if v.comoving else a ** power  # lengths of the quantity's own frame
    got = np.asarray(img.to_value(un), float)
    if v.comoving is not None:
        cf = v.cosmo_factor.a_factor / a ** power
        check(abs(float(img.cosmo_factor.a_factor) / cf - 1) < 1e-9, f"{what}: scale-factor expression {img.cosmo_factor}")
    visx.compare_image(got, want / fac, tol / fac + 1e-7 * np.abs(want / fac).max(), what)


@case(quick=60, thorough=500)
def projection(rng, env):
    from swiftsimio.visualisation.projection import project_pixel_grid
    kind = ["none", "region", "depth", "depth"][env.k % 4]
    d, g, box, a, periodic, R, c, name, mask = setup(rng, env)
    reg, b, depth = region(rng, d, box, kind, depth=kind == "depth")
    if depth and periodic and b[5] - b[4] > box[2] * (1 - 1e-12):
        b[5] = b[4] + box[2] * 0.99
        reg = None
    if reg is None and kind != "none":
        from swiftsimio import cosmo_array
        reg = cosmo_array(b, d.metadata.boxsize.units, comoving=True, cosmo_factor=d.metadata.boxsize.cosmo_factor)
    res = int(rng.integers(1, 8))
    be = ["histogram", "renormalised", "fast"][int(rng.integers(3))]
    env.note(backend=be, region=b, depth=depth, periodic=periodic, res=res, box=box, a=a, rotated=R is not None, field=name,
             x=arr(g.coordinates), h=arr(g.smoothing_lengths), frame_x=g.coordinates.comoving, mask=mask)
    u = d.metadata.boxsize.units
    x, h = prepared(g, box, a, R, c, mask, periodic)
    v, val = values(g, name)
    st = State(g, (reg, c))
    img = project_pixel_grid(g, res, project=name, region=reg, mask=mask, rotation_matrix=R, rotation_center=c, backend=be, periodic=periodic)
    st.same("a projection")
    sel = np.ones(len(h), bool) if mask is None else mask.copy()
    if depth:
        if periodic:
            w = np.mod(x[:, 2] - b[4], box[2])
            edge = (np.abs(w - (b[5] - b[4])) < EPS) | (w < EPS) | (w > box[2] - EPS)
            sel &= w <= b[5] - b[4]
        else:
            edge = (np.abs(x[:, 2] - b[4]) < EPS) | (np.abs(x[:, 2] - b[5]) < EPS)
            sel &= (x[:, 2] >= b[4]) & (x[:, 2] <= b[5])
        if edge.any():
            env.trivial()
            return
    mr = max(b[1] - b[0], b[3] - b[2])
    X, Y = (x[:, 0] - b[0]) / mr, (x[:, 1] - b[2]) / mr
    bx = box[:2] / mr if periodic else np.zeros(2)
    near = visx.near_threshold(be, (h / mr).astype("f4"), res)
    if be == "histogram":  # positions on pixel edges are decided by rounding
        near |= (np.abs(X * res - np.round(X * res)) < 1e-6) | (np.abs(Y * res - np.round(Y * res)) < 1e-6)
    else:
        e = (np.abs(X * res - np.round(X * res)) < 1e-6) | (np.abs(Y * res - np.round(Y * res)) < 1e-6)
        near |= e & (visx.G2 * h / mr * res < 1)
    if (near & sel).any() or (periodic and (visx.G2 * h / mr > bx.min() * 0.99).any()):
        env.trivial()
        return
    P = dict(x=X[sel], y=Y[sel], m=val[sel].astype("f8"), h=(h / mr)[sel])
    want, tol = visx.oracle_proj(be, P, res, bx)
    xr, yr = int(np.ceil(res * (b[1] - b[0]) / mr - 1e-9)), int(np.ceil(res * (b[3] - b[2]) / mr - 1e-9))
    if abs(res * (b[1] - b[0]) / mr - round(res * (b[1] - b[0]) / mr)) < 1e-9 or abs(res * (b[3] - b[2]) / mr - round(res * (b[3] - b[2]) / mr)) < 1e-9:
        xr, yr = (xr if abs(img.shape[0] - xr) > 1 else img.shape[0]), (yr if abs(img.shape[1] - yr) > 1 else img.shape[1])
    want, tol = want[:xr, :yr] / mr ** 2, tol[:xr, :yr] / mr ** 2 * 3
    compare(img, want, tol, v, a, 2, u, f"projection ({be})")


@case(quick=40, thorough=400)
def slice_(rng, env):
    from swiftsimio.visualisation.slice import slice_pixel_grid
    kind = ["none", "region"][env.k % 2]
    d, g, box, a, periodic, R, c, name, mask = setup(rng, env)
    reg, b, _ = region(rng, d, box, kind)
    res = int(rng.integers(1, 8))
    bs = d.metadata.boxsize
    zs = bs[2] * rng.uniform(-0.4, 0.4) if R is not None else bs[2] * rng.random()
    if rng.random() < 0.3:
        zs = zs.to_physical()
    u = bs.units
    env.note(region=b, periodic=periodic, res=res, box=box, a=a, rotated=R is not None, field=name, x=arr(g.coordinates), h=arr(g.smoothing_lengths), z=float(zs.v), mask=mask)
    x, h = prepared(g, box, a, R, c, mask, periodic)
    v, val = values(g, name)
    st = State(g, (reg, c))
    img = slice_pixel_grid(g, res, z_slice=zs, project=name, region=reg, mask=mask, rotation_matrix=R, rotation_center=c, backend="sph", periodic=periodic)
    st.same("a slice")
    sel = np.ones(len(h), bool) if mask is None else mask
    mr = max(b[1] - b[0], b[3] - b[2])
    z = float(zs.to_comoving().to_value(u)) + (float(c.to_comoving().to_value(u)[2]) if c is not None else 0)
    bx = box / mr if periodic else np.zeros(3)
    if periodic and (visx.G3 * h / mr > bx.min() * 0.99).any():
        env.trivial()
        return
    P = dict(x=((x[:, 0] - b[0]) / mr)[sel], y=((x[:, 1] - b[2]) / mr)[sel], z=(x[:, 2] / mr)[sel], m=val[sel], h=(h / mr)[sel])
    xr, yr = img.shape
    for s, r in ((xr, res * (b[1] - b[0]) / mr), (yr, res * (b[3] - b[2]) / mr)):
        check(r - 1e-6 <= s < r + 1 + 1e-6, f"slice has {s} pixels along an axis of {r} pixel widths")
    if max(xr, yr) != res:
        env.trivial()
        return
    want, tol = x_c14.oracle_sph(P, z / mr, xr, yr, bx)
    compare(img, want / mr ** 3, tol / mr ** 3 * 3, v, a, 3, u, "slice")


@case(quick=24, thorough=200)
def volume(rng, env):
    from swiftsimio.visualisation.volume_render import render_voxel_grid
    kind = ["none", "region"][env.k % 2]
    d, g, box, a, periodic, R, c, name, mask = setup(rng, env, cubic=True)
    reg, b, _ = region(rng, d, box, kind, cubic=True)
    res = int(rng.integers(1, 7))
    u = d.metadata.boxsize.units
    env.note(region=b, periodic=periodic, res=res, box=box, a=a, rotated=R is not None, field=name, x=arr(g.coordinates), h=arr(g.smoothing_lengths), mask=mask)
    x, h = prepared(g, box, a, R, c, mask, periodic)
    v, val = values(g, name)
    st = State(g, (reg, c))
    img = render_voxel_grid(g, res, project=name, region=reg, mask=mask, rotation_matrix=R, rotation_center=c, periodic=periodic)
    st.same("a volume render")
    sel = np.ones(len(h), bool) if mask is None else mask
    mr = b[1] - b[0]
    bx = box / mr if periodic else np.zeros(3)
    X = (x - b[::2]) / mr
    near = visx.near_threshold("volume", (h / mr).astype("f4"), res) | ((np.abs(X * res - np.round(X * res)) < 1e-6).any(1) & (visx.G3 * h / mr * res < 0.5))
    if (near & sel).any() or (periodic and (visx.G3 * h / mr > bx.min() * 0.99).any()):
        env.trivial()
        return
    P = dict(x=X[sel, 0], y=X[sel, 1], z=X[sel, 2], m=val[sel], h=(h / mr)[sel])
    want, tol = x_c15.oracle(P, res, bx)
    compare(img, want / mr ** 3, tol / mr ** 3 * 3, v, a, 3, u, "volume render")


@case(quick=12, thorough=60)
def volume_needs_cube(rng, env):
    from swiftsimio import cosmo_array
    from swiftsimio.visualisation.volume_render import render_gas
    d, info, box, a = dataset(rng, env, cubic=True)
    bs = d.metadata.boxsize
    s = rng.uniform(0.3, 0.6, 3) * box[0]
    i = int(rng.integers(3))
    s[:] = s[0]
    s[i] *= rng.choice([0.5, 0.97])
    env.note(sides=s)
    reg = cosmo_array([0, s[0], 0, s[1], 0, s[2]], bs.units, comoving=True, cosmo_factor=bs.cosmo_factor)
    try:
        render_gas(d, 3, region=reg)
    except AttributeError:
        return
    check(False, f"a volume render of a region with sides {s} is not rejected")


@case(quick=16, thorough=60)
def rejected(rng, env):
    """Rotation together with periodic boundaries; a depth larger than the box."""
    from swiftsimio import cosmo_array
    from swiftsimio.visualisation.projection import project_gas
    from swiftsimio.visualisation.slice import slice_gas
    from swiftsimio.visualisation.volume_render import render_gas
    d, info, box, a = dataset(rng, env, cubic=True)
    bs = d.metadata.boxsize
    env.note(k=env.k)
    st = State(d.gas)
    try:
        if env.k % 4 == 3:
            reg = cosmo_array([0, box[0], 0, box[1], 0.1, 0.1 + 1.2 * box[2]], bs.units, comoving=True, cosmo_factor=bs.cosmo_factor)
            project_gas(d, 4, region=reg, periodic=True)
        else:
            f = [project_gas, slice_gas, render_gas][env.k % 4]
            f(d, resolution=4, rotation_matrix=rotation(rng), rotation_center=bs * 0.5, periodic=True)
    except ValueError:
        st.same("a rejected image")
        return
    check(False, "not rejected: " + ("depth of more than the box" if env.k % 4 == 3 else "rotation with periodic boundaries"))


@case(quick=16, thorough=100)
def full_depth(rng, env):
    """A depth range of exactly the box contains every particle."""
    from swiftsimio import cosmo_array
    from swiftsimio.visualisation.projection import project_gas
    d, info, box, a = dataset(rng, env, cubic=True, n=10)
    bs = d.metadata.boxsize
    z0 = float(rng.uniform(-0.4, 0.4) * box[2])
    reg = cosmo_array([0, box[0], 0, box[1], z0, z0 + box[2]], bs.units, comoving=True, cosmo_factor=bs.cosmo_factor)
    env.note(region=reg.v)
    if reg[5] - reg[4] > bs[2]:
        env.trivial()
        return
    img = project_gas(d, 4, region=reg, backend="histogram")
    u = d.gas.masses.units
    tot = float(img.to_value(u / bs.units ** 2).sum()) * (box[0] / 4) ** 2
    M = float(d.gas.masses.to_value(u).astype("f8").sum())
    check(abs(tot / M - 1) < 1e-5, f"the projection through the whole box holds {tot} of {M}")


@case(quick=20, thorough=100)
def power_spectrum_deposit(rng, env):
    from swiftsimio.visualisation.power_spectrum import render_to_deposit
    d, info, box, a = dataset(rng, env)
    g = d.gas
    if rng.random() < 0.4:
        g.coordinates = g.coordinates.to_physical()
    res, fold = int(rng.integers(1, 7)), int(rng.integers(0, 3))
    env.note(res=res, fold=fold, box=box, x=arr(g.coordinates), comoving=g.coordinates.comoving)
    st = State(g)
    dep = render_to_deposit(g, res, project="masses", folding=fold)
    st.same("a power spectrum deposit")
    u = d.metadata.boxsize.units
    x = np.asarray(g.coordinates.to_comoving().to_value(u), float)
    fb = box / 2 ** fold
    s = np.mod(x, fb) / fb * res
    if (np.abs(s - np.round(s)) < 1e-6).any():
        env.trivial()
        return
    want = np.zeros((res,) * 3)
    np.add.at(want, tuple(np.floor(s).astype(int).T), np.asarray(g.masses.v, float))
    want *= res ** 3 * 8 ** fold / np.prod(box)
    if not g.coordinates.comoving:
        want = want / a ** 3
    check(dep.comoving == g.coordinates.comoving, f"deposit has frame comoving={dep.comoving}")
    got = np.asarray(dep.to_value(g.masses.units / u ** 3), float)
    check(np.allclose(got, want, rtol=1e-4, atol=1e-6 * want.max()), f"deposit differs from mass over cell volume by {np.abs(got - want).max()}")
    check(abs(float(dep.cosmo_factor.a_factor) * a ** 3 - 1) < 1e-9, f"deposit has the scale-factor expression {dep.cosmo_factor}")


@case(quick=10, thorough=60)
def counts(rng, env):
    """project=None gives particle numbers per area."""
    from swiftsimio.visualisation.projection import project_gas
    d, info, box, a = dataset(rng, env, cubic=True, n=8)
    bs = d.metadata.boxsize
    env.note(box=box)
    img = project_gas(d, 3, project=None, backend="histogram")
    tot = float(np.asarray(img.v, float).sum()) * float((bs[0] / 3).to_value(img.units ** -0.5)) ** 2
    check(abs(tot - 8) < 1e-6, f"the number-density image of 8 particles holds {tot}")


@case(quick=12, thorough=60)
def parallel_and_backends(rng, env):
    """The parallel switch and every 2D backend agree on the preparation (total mass in a box-sized image)."""
    from swiftsimio.visualisation.projection import project_gas
    d, info, box, a = dataset(rng, env, cubic=True, n=10)
    g = d.gas
    g.smoothing_lengths = g.smoothing_lengths * 0 + g.metadata.boxsize[0] * 0.12
    be = ["histogram", "renormalised", "subsampled", "fast"][env.k % 4]
    env.note(backend=be)
    bs = d.metadata.boxsize
    M = float(g.masses.v.astype("f8").sum())
    st = State(g)
    for par in ((False, True) if be == "histogram" else (False,)):
        img = project_gas(d, 32, backend=be, parallel=par)
        tot = float(img.to_value(g.masses.units / bs.units ** 2).astype("f8").sum()) * (box[0] / 32) ** 2
        check(abs(tot / M - 1) < 0.02, f"{be}, parallel={par}: box-sized image holds {tot} of {M}")
    st.same("a projection")
