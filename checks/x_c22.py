"""C22 at run time: classification and naming of metadata, on synthetic files of every type."""
import re

import h5py
import numpy as np
import unyt

from vlib import snap
from vlib.execlib import Skip, case, check, internal

PARTS = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
KIND = {"FullVolume": "SWIFTSnapshotMetadata", "VolumeSubset": "SWIFTSnapshotMetadata", "LineOfSight": "SWIFTLineOfSightMetadata",
        "SOAP": "SWIFTSOAPMetadata", "SOAPSubset": "SWIFTSOAPMetadata", "FOF": "SWIFTFOFMetadata", "FOFSubset": "SWIFTFOFMetadata"}
FIELDS = ["StarFormationHistory", "XrayLuminosities", "HIIRegions", "MetalMassFractionsFromSNIa", "Entropies", "LastAGNFeedback",
          "IsCentral", "ID2Of", "CO2Fractions", "O3", "x", "VelocityX", "VelocitiesX", "FOFGroupIDs", "FOFGroup_IDs2", "SNIaRates", "A_b",
          "SubgridPhysicalDensities", "LXInBand0", "LXInBand1", "Metallicities2D"]


def canonical(s):
    return s.replace("_", "").lower()


def common_checks(m, f, info):
    h = f["Header"].attrs
    a = float(h["Scale-factor"][0])
    check(float(m.a) == a and float(m.scale_factor) == a, f"scale factor {m.a} / {m.scale_factor}, stored {a}")
    check(float(m.z) == float(h["Redshift"][0]) and float(m.redshift) == float(h["Redshift"][0]), f"redshift {m.z}, stored {h['Redshift']}")
    for t in (m.t, m.time):
        check(np.isclose(float((t / m.units.time).to_value("dimensionless")), float(h["Time"][0]) * 1.0, rtol=1e-9) or
              np.isclose(float(t.to_value(m.units.time.units)), float(h["Time"][0]) * float(m.units.time.value), rtol=1e-9),
              f"time {t}, stored {h['Time']} in units of {m.units.time}")
    ul = float(f["Units"].attrs["Unit length in cgs (U_L)"][0])
    got = np.atleast_1d(np.asarray(m.boxsize.to_value("cm"), dtype=float))
    check(np.allclose(got, np.asarray(h["BoxSize"], float) * ul, rtol=1e-4), f"box size {m.boxsize}, stored {h['BoxSize']} x {ul} cm")
    check(m.boxsize.comoving is True and np.isclose(float(m.boxsize.cosmo_factor.a_factor), a), "box size frame")


def read_kind(h):
    v = h["Header"].attrs.get("OutputType", "FullVolume")
    return v.decode() if isinstance(v, bytes) else str(v)


@case(quick=40, thorough=1500)
def snapshot(rng, env):
    import swiftsimio as sw
    nt = int(rng.choice([6, 7, 8]))
    counts = {int(t): int(rng.choice([0, 1, 9])) for t in rng.choice(nt, int(rng.integers(1, nt)), replace=False)}
    if not any(counts.values()):
        counts[next(iter(counts))] = 3
    ot = [None, "FullVolume", "VolumeSubset"][int(rng.integers(3))]
    can_have = bool(rng.integers(2))
    if not can_have:
        counts = {t: n for t, n in counts.items() if n}
    fl = [FIELDS[i] for i in rng.permutation(len(FIELDS))[:int(rng.integers(0, 8))]]
    fields = [dict(name=n, make=lambda r, k: r.random(k), exps={"M": 1}, a_exp=0.0) for n in fl]
    scale = {}
    if rng.random() < 0.4:
        scale = dict(t=float(rng.choice([3.15576e16, 3.08567758e19])), L=float(rng.choice([3.08567758e24, 3.08567758e21])))
    p = env.path("a.h5")
    info = snap.build(p, rng, counts=counts, ntypes=nt, output_type=ot, can_have=can_have, fields=fields, units=scale,
                      a=float(rng.choice([1.0, 0.5, 0.037])), box=tuple(rng.uniform(0.5, 3, 3)), links=bool(rng.integers(2)))
    if ot is not None and rng.random() < 0.5:
        with h5py.File(p, "r+") as f:
            f["Header"].attrs["OutputType"] = ot if rng.random() < 0.5 else ot.encode()
    env.note(counts=counts, ntypes=nt, output_type=ot, can_have=can_have, fields=fl)
    ds = sw.load(p)
    m = ds.metadata
    check(type(m).__name__ == KIND[ot or "FullVolume"], f"{ot} is opened as {type(m).__name__}")
    with h5py.File(p, "r") as f:
        common_checks(m, f, info)
        for t in range(8):
            n = counts.get(t, 0)
            have = t in counts
            check(hasattr(ds, PARTS[t]) == have, f"{PARTS[t]} present: {hasattr(ds, PARTS[t])}, particles: {n}, can have: {can_have}")
            check((PARTS[t] in list(m.present_group_names)) == have and (f"PartType{t}" in list(m.present_groups)) == have,
                  f"{PARTS[t]} in present_group_names")
            check(int(getattr(m, f"n_{PARTS[t]}")) == n, f"n_{PARTS[t]} = {getattr(m, f'n_{PARTS[t]}')}, stored {n}")
            if not have:
                continue
            g = getattr(ds, PARTS[t])
            props = getattr(m, f"{PARTS[t]}_properties")
            stored = list(f[f"PartType{t}"].keys())
            names = list(props.field_names)
            check(len(names) == len(stored) == len(set(names)), f"{len(stored)} fields but names {names}")
            paths = list(props.field_paths)
            check(sorted(x.split("/")[-1] for x in paths) == sorted(stored), f"field paths {paths}")
            for nm, path in zip(names, paths):
                item = path.split("/")[-1]
                check(path == f"PartType{t}/{item}", f"path {path}")
                check(re.fullmatch(r"[a-z0-9_]+", nm) and canonical(nm) == canonical(item), f"{item} is called {nm}")
                want = {"Coordinates": "coordinates", "ParticleIDs": "particle_ids", "SmoothingLengths": "smoothing_lengths",
                        "ElementMassFractions": "element_mass_fractions", "StarFormationRates": "star_formation_rates"}.get(item)
                check(want is None or nm == want, f"{item} is called {nm}")
                v = getattr(g, nm)
                raw = f[path][...]
                if hasattr(v, "named_columns"):
                    cols = info["named"][item]
                    check([c.lower() for c in v.named_columns] == [c.lower() for c in cols], f"columns {v.named_columns}")
                    for j, c in enumerate(v.named_columns):
                        check(np.array_equal(np.asarray(getattr(v, c)), raw[:, j]), f"column {c} of {item}")
                else:
                    check(np.array_equal(np.asarray(v), raw), f"{nm} does not hold {item}")


# groups of a SOAP catalogue, some of them within another that has fields of its own
APERTURES = {"ProjectedAperture/50kpc": "projected_aperture_50kpc", "ProjectedAperture/50kpc/projx": "projected_aperture_50kpc_projx",
             "ProjectedAperture/50kpc/projy": "projected_aperture_50kpc_projy", "InclusiveSphere/10x_BN98": "inclusive_sphere_10x_bn98",
             "ExclusiveSphere/100kpc": "exclusive_sphere_100kpc"}


@case(quick=16, thorough=200)
def soap(rng, env):
    import swiftsimio as sw
    p = env.path("s.h5")
    ot = str(rng.choice(["SOAP", "SOAPSubset"]))
    n = int(rng.choice([0, 1, 20]))
    info = snap.build_soap(p, rng, n=n, output_type=ot if rng.random() < 0.5 else np.bytes_(ot), a=float(rng.choice([1.0, 0.5])),
                           apertures=[x for x in APERTURES if rng.random() < 0.6])
    env.note(n=n, output_type=ot, groups=sorted(info["fields"]))
    ds = sw.load(p)
    m = ds.metadata
    check(type(m).__name__ == KIND[ot], f"{ot} is opened as {type(m).__name__}")
    names = {"BoundSubhalo": "bound_subhalo", "InputHalos": "input_halos", "SO/200_crit": "spherical_overdensity_200_crit", "SOAP": "soap"}
    present = {x.rsplit("/", 1)[0] for x in info["fields"]}
    names |= {k: v for k, v in APERTURES.items() if k in present}
    check(int(m.n_subhalos) == n, f"n_subhalos = {m.n_subhalos}")
    check(sorted(m.present_group_names) == sorted(names.values()), f"groups {m.present_group_names}")
    with h5py.File(p, "r") as f:
        common_checks(m, f, info)
        for grp, name in names.items():
            items = [x for x in f[grp] if isinstance(f[grp][x], h5py.Dataset)]
            got = getattr(m, name + "_properties").field_names
            check(sorted(map(canonical, got)) == sorted(map(canonical, items)), f"the fields of {grp} are {items}, not {got}")
        for path in info["fields"]:
            grp, item = path.rsplit("/", 1)
            g = getattr(ds, names[grp])
            fn = [x for x in getattr(m, names[grp] + "_properties").field_names if canonical(x) == canonical(item)]
            check(len(fn) == 1, f"{path} has names {fn}")
            check(np.array_equal(np.asarray(getattr(g, fn[0])), f[path][...]), f"{names[grp]}.{fn[0]} does not hold {path}")


@case(quick=20, thorough=200)
def soap_group_names(rng, env):
    f = internal("swiftsimio.metadata.soap.soap_types", "get_soap_name_underscore", "SOAP")
    heads = ["BoundSubhalo", "InputHalos", "InclusiveSphere", "ExclusiveSphere", "SO", "SOAP", "ProjectedAperture"]
    tails = ["", "/100kpc", "/200_crit", "/30kpc", "/2500_crit", "/BN98", "/30kpc/projx", "/30kpc/projy", "/FOF", "/HBTplus", "/5xR_500_crit"]
    groups = [h + t for h in heads for t in tails]
    pick = [groups[i] for i in rng.permutation(len(groups))[:30]]
    env.note(groups=pick)
    out = [f(g) for g in pick]
    check(len(set(out)) == len(out), "two SOAP groups share a name")
    for g, o in zip(pick, out):
        check(o == o.lower() and o.isidentifier(), f"{g} is called {o}")


@case(quick=10, thorough=150)
def fof_and_los(rng, env):
    import swiftsimio as sw
    los = bool(rng.integers(2))
    p = env.path("f.h5")
    n = int(rng.integers(1, 20))
    ngrp = int(rng.integers(1, 5))
    ot = "LineOfSight" if los else str(rng.choice(["FOF", "FOFSubset"]))
    env.note(output_type=ot, n=n, groups=ngrp)
    a = 0.5
    data = {}
    with h5py.File(p, "w") as f:
        def put(path, arr, exps, ae):
            data[path] = arr
            d = f.create_dataset(path, data=arr)
            snap.field_attrs(d, exps=exps, a_exp=ae)
        if los:
            for k in range(ngrp):
                g = f"LOS_{k:04d}"
                put(f"{g}/Coordinates", rng.random((n, 3)), {"L": 1}, 1.0)
                put(f"{g}/Masses", rng.random(n), {"M": 1}, 0.0)
                f[g].attrs["NumParts"] = np.array([n])
                f[g].attrs["Xpos"] = np.array([0.1 * k])
        else:
            put("Groups/Centres", rng.random((n, 3)), {"L": 1}, 1.0)
            put("Groups/Masses", rng.random(n), {"M": 1}, 0.0)
            put("Groups/GroupIDs", np.arange(n), {}, 0.0)
        at = f.create_group("Header").attrs
        at["BoxSize"] = np.array([1.0, 2.0, 3.0])
        at["NumPart_ThisFile"] = np.zeros(7, np.int64)
        at["NumGroup_ThisFile"] = np.array([n])
        at["NumFilesPerSnapshot"] = np.array([1], np.int32)
        at["Scale-factor"], at["Redshift"], at["Time"] = np.array([a]), np.array([1.0]), np.array([3.0])
        at["Dimension"] = np.array([3], np.int32)
        at["OutputType"] = np.bytes_(ot)
        c = f.create_group("Cosmology")
        for k, v in snap.cosmology_attrs(a, True).items():
            c.attrs[k] = v
        f.create_group("Code").attrs["Code"] = np.bytes_(b"SWIFT")
        snap.write_units(f)
    ds = sw.load(p)
    m = ds.metadata
    check(type(m).__name__ == KIND[ot], f"{ot} is opened as {type(m).__name__}")
    with h5py.File(p, "r") as f:
        common_checks(m, f, {})
    want = [f"los_{k:04d}" for k in range(ngrp)] if los else ["fof_groups"]
    check(sorted(m.present_group_names) == want, f"groups {m.present_group_names} instead of {want}")
    for path, arr in data.items():
        grp, item = path.split("/")
        g = getattr(ds, grp.lower() if los else "fof_groups")
        fn = [x for x in g.group_metadata.field_names if canonical(x) == canonical(item)]
        check(len(fn) == 1 and np.array_equal(np.asarray(getattr(g, fn[0])), arr), f"{path} is not reachable as {fn}")


@case(quick=60, thorough=3000)
def field_names(rng, env):
    conv = internal("swiftsimio.metadata.objects", "_convert_snake_to_camel", "X")
    alphabet = list("aAbBcZz019_")
    k = int(rng.integers(2, 8))
    s = ["".join(rng.choice(alphabet, int(rng.integers(1, 9)))) for _ in range(k)]
    env.note(names=s)
    out = [conv(x) for x in s]
    for x, o in zip(s, out):
        check(o == o.lower() and canonical(o) == canonical(x), f"{x} becomes {o}")
    for i in range(k):
        for j in range(i):
            check(out[i] != out[j] or canonical(s[i]) == canonical(s[j]), f"{s[i]} and {s[j]} are both called {out[i]}")


@case(quick=3, thorough=3)
def unknown_type(rng, env):
    import swiftsimio as sw
    p = env.path("a.h5")
    snap.build(p, rng, counts={0: 3}, output_type=["Nonsense", "fof", "Snapshot"][env.k % 3])
    env.note(k=env.k)
    try:
        sw.load(p)
    except ValueError:
        return
    check(False, "an unknown output type was accepted")
