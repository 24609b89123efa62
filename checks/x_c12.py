"""C12 at run time: written snapshots against what was put in, by reading the file with h5py and with the library."""
import os

import h5py
import numpy as np
import unyt

from vlib.execlib import Skip, case, check

TYPES = {"gas": 0, "dark_matter": 1, "boundary": 2, "sinks": 3, "stars": 4, "black_holes": 5, "neutrinos": 6, "sidm": 7}
EXTRA = {"gas": ["smoothing_lengths", "internal_energy"], "stars": ["smoothing_lengths"]}
HANDLE = dict(coordinates="Coordinates", velocities="Velocities", masses="Masses", smoothing_lengths="SmoothingLengths",
              internal_energy="InternalEnergy", particle_ids="ParticleIDs")
UNITS = dict(coordinates=["Mpc", "kpc", "cm", "pc"], velocities=["km/s", "cm/s", "Mpc/Gyr"], masses=["Msun", "g", "kg"],
             smoothing_lengths=["kpc", "Mpc"], internal_energy=["km**2/s**2", "erg/g"])
DIMS = dict(coordinates=dict(L=1), velocities=dict(L=1, t=-1), masses=dict(M=1), smoothing_lengths=dict(L=1),
            internal_energy=dict(L=2, t=-2), particle_ids={})


def physical_cgs(x):
    """Oracle: the physical value in cgs as plain floats."""
    y = np.array(x.view(np.ndarray), dtype=float) * float(x.units.get_conversion_factor(x.units.get_cgs_equivalent())[0])
    return y * (float(x.cosmo_factor.a_factor) if x.comoving else 1.0)


def unit_system(rng):
    from swiftsimio.metadata.writer.unit_systems import cosmo_units
    k = int(rng.integers(0, 4))
    return [cosmo_units, "cgs", "mks", "galactic"][k], ["cosmo", "cgs", "mks", "galactic"][k]


def present(rng):
    names = [n for n in TYPES if n != "sidm" or rng.random() < 0.3]
    k = int(rng.integers(1, 5))
    return [names[i] for i in sorted(rng.choice(len(names), k, replace=False))]


def make(rng, sw, a, ids="none"):
    us, usname = unit_system(rng)
    dim = 3
    L = float(rng.uniform(0.5, 100))
    bu = str(rng.choice(["Mpc", "kpc"]))
    comoving = rng.random() < 0.7
    same = rng.random() < 0.6
    box = sw.cosmo_array(np.ones(3) * L if same else L * rng.uniform(0.5, 2, 3), bu, comoving=comoving, scale_factor=a,
                         scale_exponent=1)
    w = sw.Writer(unit_system=us, boxsize=box, scale_factor=a, dimension=dim, compress=bool(rng.integers(2)),
                  extra_header={"Extra": 7} if rng.random() < 0.3 else None)
    given = {}
    next_id = 10
    for name in present(rng):
        n = int(rng.integers(1, 30))
        ds = getattr(w, name)
        vals = {}
        for f in ["coordinates", "velocities", "masses"] + EXTRA.get(name, []):
            e = {"coordinates": 1, "masses": 0}.get(f, float(rng.choice([0, 1, -1, -2, 0.5, 3, -1.5])))
            if f == "smoothing_lengths":
                e = 1
            v = rng.random((n, dim) if f in ("coordinates", "velocities") else n) + 0.25
            unit = str(rng.choice(UNITS[f]))
            if rng.random() < 0.2 and unit not in ("g", "kg"):     # (those overflow or underflow single precision)
                v = v.astype("f4")
            x = sw.cosmo_array(v, unit, comoving=bool(rng.random() < 0.7), scale_factor=a, scale_exponent=e)
            vals[f] = (physical_cgs(x), e)
            setattr(ds, f, x)
        if ids == "all" or (ids == "some" and rng.random() < 0.5):
            i = np.arange(next_id, next_id + n)[rng.permutation(n)]
            ds.particle_ids = i
            vals["ids"] = i.copy()
            next_id += n + int(rng.integers(0, 5))
        given[name] = (n, vals)
    return w, box, given, usname


@case(quick=40, thorough=1500)
def round_trip(rng, env):
    import swiftsimio as sw
    a = float(rng.choice([1.0, 0.5, 0.25, 0.7, 0.0123]))
    ids = str(rng.choice(["none", "all", "some"]))
    w, box, given, usname = make(rng, sw, a, ids)
    env.note(a=a, unit_system=usname, types={k: v[0] for k, v in given.items()}, ids=ids,
             exponents={k: [v[1][f][1] for f in sorted(v[1]) if f != "ids"] for k, v in given.items()})
    p = env.path("o.hdf5")
    w.write(p)
    with h5py.File(p, "r") as f:
        h = dict(f["Header"].attrs)
        un = {k: float(v[0]) for k, v in f["Units"].attrs.items()}
        ul, um, ut = (un[f"Unit {x} in cgs ({y})"] for x, y in (("length", "U_L"), ("mass", "U_M"), ("time", "U_t")))
        want_box = physical_cgs(box) / a
        check(np.allclose(np.asarray(h["BoxSize"]) * ul, want_box, rtol=1e-9), f"box size {h['BoxSize']} * {ul} != {want_box}")
        check(float(np.ravel(h["Scale-factor"])[0]) == a, "scale factor in the header")
        npart = np.asarray(h["NumPart_Total"])
        for name, t in TYPES.items():
            n = given[name][0] if name in given else 0
            got = int(npart[t]) if t < len(npart) else 0
            check(got == n, f"NumPart_Total[{t}] = {got}, {n} particles of type {name} given")
            check(int(np.asarray(h["NumPart_ThisFile"])[t] if t < len(npart) else 0) == n, "NumPart_ThisFile")
            check((f"PartType{t}" in f) == (n > 0), f"group PartType{t} present: {f'PartType{t}' in f}")
        allids = []
        for name, (n, vals) in given.items():
            g = f[f"PartType{TYPES[name]}"]
            for fld, hd in HANDLE.items():
                if hd not in g:
                    check(fld not in vals and fld != "particle_ids", f"{name}.{fld} was not written")
                    continue
                d = g[hd]
                check(d.shape[0] == n, f"{name}.{fld} has {d.shape[0]} rows instead of {n}")
                at = {k: float(np.ravel(v)[0]) for k, v in d.attrs.items()}
                e = {x: at[f"U_{x} exponent"] for x in "MLtIT"}
                want = {x: float(DIMS[fld].get(x, 0)) for x in "MLtIT"}
                check(e == want, f"{name}.{fld}: unit exponents {e} instead of {want}")
                conv = um ** e["M"] * ul ** e["L"] * ut ** e["t"]
                check(np.isclose(at["Conversion factor to CGS (not including cosmological corrections)"], conv, rtol=1e-6),
                      f"{name}.{fld}: conversion factor {at['Conversion factor to CGS (not including cosmological corrections)']} "
                      f"but the unit system gives {conv}")
                if fld == "particle_ids":
                    check(at["a-scale exponent"] == 0.0, "particle IDs have a scale-factor exponent")
                    allids.append(np.asarray(d[...]))
                    continue
                phys, ex = vals[fld]
                check(np.isclose(at["a-scale exponent"], ex), f"{name}.{fld}: a-scale exponent {at['a-scale exponent']} != {ex}")
                check(np.isclose(at["Conversion factor to physical CGS (including cosmological corrections)"], conv * a**ex, rtol=1e-6),
                      f"{name}.{fld}: conversion factor to physical cgs")
                check(np.allclose(d[...].astype(float) * conv * a**ex, phys, rtol=2e-6), f"{name}.{fld}: stored values are not the ones given")
        allids = np.concatenate(allids)
        check(np.unique(allids).size == allids.size, "particle IDs repeat")
        have = all("ids" in v[1] for v in given.values())
        if have:
            check(np.array_equal(allids, np.concatenate([v[1]["ids"] for v in given.values()])), "given IDs were not kept")
        else:
            check(np.array_equal(allids, np.arange(1, len(allids) + 1)), f"generated IDs are not consecutive from 1: {allids[:20]}")
    # the library reads units to five significant figures
    ds = sw.load(p)
    for name, (n, vals) in given.items():
        g = getattr(ds, name)
        for fld, v in vals.items():
            if fld == "ids":
                continue
            x = getattr(g, fld, None)
            check(x is not None, f"{name}.{fld} cannot be read back")
            check(np.allclose(physical_cgs(x), v[0], rtol=1e-4), f"{name}.{fld} reads back as a different physical quantity")
            check(np.isclose(float(x.cosmo_factor.a_factor), a ** v[1], rtol=1e-6), f"{name}.{fld} reads back with another a-scaling")
    check(np.allclose(physical_cgs(ds.metadata.boxsize), physical_cgs(box), rtol=1e-4), "the box size reads back differently")


@case(quick=40, thorough=800)
def rejects_inconsistent(rng, env):
    import swiftsimio as sw
    a = 0.5
    kind = str(rng.choice(["missing", "length", "units", "plain", "scale_factor", "dup_ids", "dup_across", "neg_ids", "box", "vel_shape",
                           "nothing"]))
    env.note(kind=kind)
    p = env.path("o.hdf5")
    C = lambda v, u, e, aa=a: sw.cosmo_array(v, u, comoving=True, scale_factor=aa, scale_exponent=e)
    name = str(rng.choice(["gas", "dark_matter", "stars", "black_holes"]))
    n = int(rng.integers(2, 12))
    env.note(name=name, n=n)

    def fill(w, name, n, ids=None, **over):
        ds = getattr(w, name)
        f = dict(coordinates=lambda: C(rng.random((n, 3)), "Mpc", 1), velocities=lambda: C(rng.random((n, 3)), "km/s", 0),
                 masses=lambda: C(rng.random(n), "Msun", 0), smoothing_lengths=lambda: C(rng.random(n), "Mpc", 1),
                 internal_energy=lambda: C(rng.random(n), "km**2/s**2", -2))
        for k in ["coordinates", "velocities", "masses"] + EXTRA.get(name, []):
            if k in over:
                if over[k] is not None:
                    setattr(ds, k, over[k])
            else:
                setattr(ds, k, f[k]())
        if ids is not None:
            ds.particle_ids = ids

    def attempt():
        box = C([1.0] * (2 if kind == "box" else 3), "Mpc", 1)
        w = sw.Writer(unit_system="cgs", boxsize=box, scale_factor=a)
        fld = str(rng.choice(["coordinates", "velocities", "masses"] + EXTRA.get(name, [])))
        env.note(field=fld)
        shape = (n, 3) if fld in ("coordinates", "velocities") else (n,)
        if kind == "missing":
            fill(w, name, n, **{fld: None})
        elif kind == "length":
            fill(w, name, n, **{fld: C(rng.random((n + 1,) + shape[1:]), UNITS[fld][0], 1)})
        elif kind == "units":
            fill(w, name, n, **{fld: C(rng.random(shape), "K", 1)})
        elif kind == "plain":
            fill(w, name, n, **{fld: rng.random(shape) if rng.random() < 0.5 else unyt.unyt_array(rng.random(shape), UNITS[fld][0])})
        elif kind == "scale_factor":
            fill(w, name, n, **{fld: C(rng.random(shape), UNITS[fld][0], 1, 0.25)})
        elif kind == "dup_ids":
            i = np.arange(1, n + 1)
            i[int(rng.integers(1, n))] = 1
            fill(w, name, n, ids=i)
        elif kind == "neg_ids":
            i = np.arange(1, n + 1)
            i[int(rng.integers(0, n))] = int(rng.integers(-3, 1))
            fill(w, name, n, ids=i)
        elif kind == "dup_across":
            fill(w, name, n, ids=np.arange(1, n + 1))
            other = next(x for x in ("gas", "dark_matter", "stars") if x != name)
            fill(w, other, n, ids=np.arange(n, 2 * n))
        elif kind == "vel_shape":
            fill(w, name, n, velocities=C(rng.random((n, 2)), "km/s", 0))
        elif kind == "box":
            fill(w, name, n)
        w.write(p)
    try:
        attempt()
    except Exception:
        pass
    else:
        check(False, f"inconsistent input ({kind}) was accepted")
    check(not os.path.exists(p), f"a file was produced although the input is inconsistent ({kind})")


@case(quick=6, thorough=60)
def generated_smoothing_lengths(rng, env):
    import swiftsimio as sw
    a = float(rng.choice([1.0, 0.5]))
    n = int(rng.choice([1, 2, 8, 27, 100]))
    L = float(rng.uniform(1, 50))
    com = bool(rng.integers(2))
    env.note(n=n, L=L, a=a, comoving=com)
    w = sw.Writer(unit_system="cgs", boxsize=sw.cosmo_array([L] * 3, "Mpc", comoving=com, scale_factor=a, scale_exponent=1), scale_factor=a)
    w.gas.coordinates = sw.cosmo_array(rng.random((n, 3)), "Mpc", comoving=True, scale_factor=a, scale_exponent=1)
    w.gas.generate_smoothing_lengths()
    got = physical_cgs(w.gas.smoothing_lengths)
    want = 2 * L / n ** (1 / 3) * (a if com else 1) * float((1 * unyt.Mpc).in_cgs().value)
    check(got.shape == (n,) and np.allclose(got, want, rtol=1e-6), f"smoothing lengths {got[:3]} instead of {want}")
    w2 = sw.Writer(unit_system="cgs", boxsize=sw.cosmo_array([L, L, 2 * L], "Mpc", comoving=True, scale_factor=a, scale_exponent=1),
                   scale_factor=a)
    w2.gas.coordinates = sw.cosmo_array(rng.random((n, 3)), "Mpc", comoving=True, scale_factor=a, scale_exponent=1)
    try:
        w2.gas.generate_smoothing_lengths()
        check(False, "smoothing lengths generated for a non-cubic box")
    except ValueError:
        pass


@case(quick=6, thorough=60)
def empty_type(rng, env):
    import swiftsimio as sw
    w = sw.Writer(unit_system="cgs", boxsize=sw.cosmo_array([1.0] * 3, "Mpc", comoving=True, scale_factor=0.5, scale_exponent=1),
                  scale_factor=0.5, compress=bool(rng.integers(2)))
    C = lambda v, u, e: sw.cosmo_array(v, u, comoving=True, scale_factor=0.5, scale_exponent=e)
    m = int(rng.integers(0, 4))
    for name, n in (("dark_matter", m), ("black_holes", 0), ("neutrinos", int(rng.integers(0, 4)))):
        g = getattr(w, name)
        g.coordinates, g.velocities, g.masses = C(np.ones((n, 3)), "Mpc", 1), C(np.ones((n, 3)), "km/s", 0), C(np.ones(n), "Msun", 0)
    env.note(n=n)
    p = env.path("o.hdf5")
    try:
        w.write(p)
    except Exception:
        check(not os.path.exists(p), "a truncated file was left behind")
        return
    with h5py.File(p, "r") as f:
        check(list(np.asarray(f["Header"].attrs["NumPart_Total"])[[1, 5, 6]]) == [m, 0, n], "particle numbers")
        check("Units" in f, "the file is incomplete")
        got = np.concatenate([np.asarray(f[f"PartType{t}/ParticleIDs"]) for t in (1, 5, 6) if f"PartType{t}/ParticleIDs" in f])
        check(np.array_equal(got, np.arange(1, m + n + 1)), f"generated IDs {got} of {m} and {n} particles (and an empty type between them)")


@case(quick=8, thorough=60)
def not_convertible(rng, env):
    """A physical field that may not be made comoving is rejected, or written so that it reads back equal."""
    import swiftsimio as sw
    a = float(rng.choice([0.5, 0.25]))
    w = sw.Writer(unit_system="cgs", boxsize=sw.cosmo_array([1.0] * 3, "Mpc", comoving=True, scale_factor=a, scale_exponent=1), scale_factor=a)
    n = 5
    C = lambda v, u, e: sw.cosmo_array(v, u, comoving=True, scale_factor=a, scale_exponent=e)
    g = w.dark_matter
    g.coordinates, g.velocities, g.masses = C(np.ones((n, 3)), "Mpc", 1), C(np.ones((n, 3)), "km/s", 0), C(np.ones(n), "Msun", 0)
    fld, u, e = [("coordinates", "Mpc", 1), ("velocities", "km/s", 1), ("masses", "Msun", 3)][int(rng.integers(3))]
    v = rng.random(n if fld == "masses" else (n, 3)) + 0.5
    x = sw.cosmo_array(v, u, comoving=False, scale_factor=a, scale_exponent=e, valid_transform=False)
    env.note(a=a, field=fld, exponent=e)
    want = physical_cgs(sw.cosmo_array(v, u, comoving=False, scale_factor=a, scale_exponent=e))
    p = env.path("o.hdf5")
    try:
        setattr(g, fld, x)
        w.write(p)
    except Exception:
        return
    got = physical_cgs(getattr(sw.load(p).dark_matter, fld))
    check(np.allclose(got, want, rtol=1e-4), f"{fld} reads back as {got}, {want} was given")
