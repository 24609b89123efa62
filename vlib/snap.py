"""Synthetic SWIFT output files with known contents (independent of the library's writer)."""
import h5py
import numpy as np

NAMES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
MPC, MSUN, GYR = 3.08567758e24, 1.98841e43, 3.08567758e19


def field_attrs(d, *, exps, a_exp, desc="field", physical=0, convertible=1, comp=b"None", extra=None, cgs=1.0):
    for k in "ILMTt":
        d.attrs[f"U_{k} exponent"] = np.array([float(exps.get(k, 0))])
    d.attrs["a-scale exponent"] = np.array([a_exp], dtype=np.float32)
    d.attrs["h-scale exponent"] = np.array([0.0], dtype=np.float32)
    d.attrs["Conversion factor to CGS (not including cosmological corrections)"] = np.array([cgs])
    d.attrs["Conversion factor to physical CGS (including cosmological corrections)"] = np.array([cgs])
    d.attrs["Description"] = desc.encode()
    d.attrs["Expression for physical CGS units"] = b"a U_L"
    d.attrs["Lossy compression filter"] = comp
    d.attrs["Value stored as physical"] = np.array([physical], dtype=np.int32)
    d.attrs["Property can be converted to comoving"] = np.array([convertible], dtype=np.int32)
    for k, v in (extra or {}).items():
        d.attrs[k] = v


def cosmology_attrs(a=0.5, cosmo=True, **kw):
    z = 1 / a - 1
    d = {
        "Cosmological run": np.array([1 if cosmo else 0], dtype=np.int32),
        "H0 [internal units]": np.array([69.27]),
        "H [internal units]": np.array([69.27]),
        "h": np.array([0.6927]),
        "Omega_m": np.array([0.3]), "Omega_b": np.array([0.0482]), "Omega_lambda": np.array([0.6999]),
        "Omega_k": np.array([0.0]), "Omega_r": np.array([5e-5]), "Omega_cdm": np.array([0.2518]),
        "w_0": np.array([-1.0]), "w_a": np.array([0.0]), "w": np.array([-1.0]),
        "N_eff": np.array([3.04]), "N_ur": np.array([3.04]), "M_nu_eV": np.array([0.0]), "deg_nu": np.array([0.0]),
        "T_CMB_0 [K]": np.array([2.7255]), "Redshift": np.array([z]), "Scale-factor": np.array([a]),
    }
    d.update(kw)
    return d


def write_units(f, scale=None):
    s = dict(M=MSUN, L=MPC, t=GYR, I=1.0, T=1.0)
    s.update(scale or {})
    for grp in ("Units", "InternalCodeUnits"):
        g = f.create_group(grp)
        g.attrs["Unit mass in cgs (U_M)"] = np.array([s["M"]])
        g.attrs["Unit length in cgs (U_L)"] = np.array([s["L"]])
        g.attrs["Unit time in cgs (U_t)"] = np.array([s["t"]])
        g.attrs["Unit current in cgs (U_I)"] = np.array([s["I"]])
        g.attrs["Unit temperature in cgs (U_T)"] = np.array([s["T"]])


def build(path, rng, *, counts=None, box=(1.0, 1.0, 1.0), dims=(3, 3, 3), a=0.5, minmax=True, drift=0.3, chunks=None,
          output_type="FullVolume", offsets_name="OffsetsInFile", cosmo=True, fields=(), named=None, links=True, be=False,
          handle=None, empty_cells=0.3, can_have=True, ntypes=7, clip_box=False, chunked=True, coord_dtype="f8", extra_groups=True,
          units=None, cosmology=None, edge=0.15, nested_links=False, fill=None):
    """counts: {ptype: n}. Returns a description of what was written."""
    counts = {0: 40, 1: 30} if counts is None else counts
    box = np.asarray(box, float)
    dims = np.asarray(dims)
    nc = int(np.prod(dims))
    size = box / dims
    idx = np.stack(np.meshgrid(*[np.arange(d) for d in dims], indexing="ij"), -1).reshape(-1, 3)
    centres = (idx + 0.5) * size
    perm = rng.permutation(nc)  # cell k is written at rank perm[k]
    active = rng.random(nc) >= empty_cells
    if not active.any():
        active[rng.integers(nc)] = True
    f = handle if handle is not None else h5py.File(path, "w")
    info = dict(path=path, box=box, dims=dims, size=size, centres=centres, a=a, types={}, cells={}, names={}, ncell=nc, perm=perm)
    order = np.argsort(perm)  # cells in file order
    num = np.zeros(ntypes, dtype=np.int64)
    cells = f.create_group("Cells")
    cells.create_dataset("Centres", data=centres)
    md = cells.create_group("Meta-data")
    md.attrs["dimension"] = dims.astype(np.int32)
    md.attrs["size"] = size
    md.attrs["nr_cells"] = np.array([nc], dtype=np.int32)
    for g in ("Counts", offsets_name, "Files"):
        cells.create_group(g)
    if minmax:
        cells.create_group("MinPositions")
        cells.create_group("MaxPositions")
    be_t = (lambda t: np.dtype(t).newbyteorder(">")) if be else np.dtype
    for pt in sorted(counts):
        n = counts[pt]
        num[pt] = n
        key = f"PartType{pt}"
        # distribute over active cells
        if n:
            ac = np.where(active)[0]
            which = rng.choice(ac, n)
        else:
            which = np.zeros(0, int)
        cc = np.bincount(which, minlength=nc)
        off = np.zeros(nc, np.int64)
        run = 0
        for c in order:
            off[c] = run
            run += cc[c]
        which = np.concatenate([np.full(cc[c], c) for c in order]).astype(int) if n else which
        u = rng.random((n, 3))
        onedge = rng.random((n, 3)) < edge
        u = np.where(onedge, np.round(u), u)
        u = np.where(u >= 1.0, 1 - 1e-12, u)
        pos = (idx[which] + u) * size
        pad = None
        if drift:
            # drifted particles: up to `drift` cell sizes beyond their cell
            pad = (rng.random((n, 3)) - 0.5) * 2 * drift * size * (rng.random((n, 1)) < 0.4)
            pos = pos + pad
        wrapped = np.mod(pos, box)
        if minmax:
            mn = np.zeros((nc, 3))
            mx = np.zeros((nc, 3))
            for c in range(nc):
                s = slice(off[c], off[c] + cc[c])
                if cc[c]:
                    mn[c], mx[c] = pos[s].min(0), pos[s].max(0)
                else:
                    mn[c], mx[c] = centres[c] - 0.5 * size, centres[c] + 0.5 * size
            cells["MinPositions"].create_dataset(key, data=mn)
            cells["MaxPositions"].create_dataset(key, data=mx)
        cells["Counts"].create_dataset(key, data=cc.astype(np.int64))
        cells[offsets_name].create_dataset(key, data=off)
        cells["Files"].create_dataset(key, data=np.zeros(nc, np.int32))
        g = f.create_group(key)
        nice = {0: "Gas", 1: "DM", 4: "Stars", 5: "BH"}.get(pt, f"Type{pt}")
        if links:
            f[f"{nice}Particles"] = h5py.SoftLink("/" + key)
        if nested_links:
            g["Positions"] = h5py.SoftLink(f"/{key}/Coordinates")
            g["Mass"] = h5py.SoftLink(f"/{key}/Masses")
            f[["Dens", "Mass", "Coordinates", "PartType", "Smoothing", "Cel", "Head", "x"][pt]] = h5py.SoftLink("/" + key)
        data = {}

        def put(name, arr, dt, exps, a_exp, **kw):
            arr = np.asarray(arr).astype(be_t(dt))
            ck = None
            if chunked and n:
                c0 = int(chunks or rng.integers(1, max(2, n)))
                ck = (min(c0, max(n, 1)),) + arr.shape[1:]
            d = g.create_dataset(name, data=arr, chunks=ck)
            field_attrs(d, exps=exps, a_exp=a_exp, desc=f"{name} of {key}", **kw)
            data[name] = dict(values=np.asarray(arr).astype(np.dtype(dt)), exps=exps, a_exp=a_exp, attrs=kw)
        put("Coordinates", wrapped if fill is None else fill(wrapped), coord_dtype, {"L": 1}, 1.0)
        put("Masses", rng.random(n) + 0.1, "f4", {"M": 1}, 0.0)
        put("ParticleIDs", rng.permutation(n) + 1 + 1000 * pt, "i8", {}, 0.0)
        put("Velocities", rng.normal(size=(n, 3)), "f4", {"L": 1, "t": -1}, 0.0, convertible=1)
        if pt in (0, 4):
            put("SmoothingLengths", rng.random(n) * 0.1 * box.min() + 1e-3, "f4", {"L": 1}, 1.0)
            put("ElementMassFractions", rng.random((n, 4)), "f4", {}, 0.0)
        if pt == 0:
            put("Densities", rng.random(n) * 10 + 1, "f4", {"M": 1, "L": -3}, -3.0)
            put("InternalEnergies", rng.random(n) * 10 + 1, "f4", {"L": 2, "t": -2}, -2.0, comp=b"DScale3")
            put("Temperatures", rng.random(n) * 1e4 + 1, "f4", {"T": 1}, 0.0, physical=1, convertible=0)
            put("MagneticFluxDensities", rng.random((n, 3)), "f4", {"M": 1, "t": -2, "I": -1}, -2.0)
            put("StarFormationRates", rng.normal(size=n), "f4", {"M": 1, "t": -1}, 0.0, physical=1)
        for fl in fields:
            put(fl["name"], fl["make"](rng, n), fl.get("dtype", "f4"), fl["exps"], fl["a_exp"], **fl.get("attrs", {}))
        info["types"][pt] = data
        info["cells"][pt] = dict(counts=cc, offsets=off, which=which)
        info["names"][pt] = NAMES[pt]
        info.setdefault("true_pos", {})[pt] = pos
        info.setdefault("wrapped", {})[pt] = wrapped
    info["num"] = num
    h = f.create_group("Header")
    at = h.attrs
    at["BoxSize"] = box
    at["NumPart_ThisFile"] = num
    at["NumPart_Total"] = num.astype(np.uint32)
    at["NumPart_Total_HighWord"] = np.zeros(ntypes, np.uint32)
    at["NumFilesPerSnapshot"] = np.array([1], np.int32)
    at["ThisFile"] = np.array([0], np.int32)
    at["MassTable"] = np.zeros(ntypes)
    at["InitialMassTable"] = np.arange(ntypes) * 0.5
    at["Scale-factor"] = np.array([a])
    at["Redshift"] = np.array([1 / a - 1])
    at["Time"] = np.array([3.25])
    at["Dimension"] = np.array([3], np.int32)
    if output_type is not None:
        at["OutputType"] = np.bytes_(output_type)
    at["System"] = b"sandbox"
    at["RunName"] = b"verif"
    at["SelectOutput"] = b"Default"
    at["SnapshotDate"] = b"11:12:13 2024-05-06 UTC"
    at["Code"] = b"SWIFT"
    if can_have:
        ht = np.zeros(ntypes, np.int32)
        for pt in counts:
            ht[pt] = 1
        at["CanHaveTypes"] = ht
    c = f.create_group("Code")
    c.attrs["Code"] = np.bytes_(b"SWIFT")
    c.attrs["Git Branch"] = b"master"
    c = f.create_group("Cosmology")
    for k, v in cosmology_attrs(a, cosmo, **(cosmology or {})).items():
        c.attrs[k] = v
    write_units(f, units)
    if extra_groups:
        hs = f.create_group("HydroScheme")
        hs.attrs["Adiabatic index"] = np.array([5 / 3])
        hs.attrs["Scheme"] = b"SPHENIX"
        p = f.create_group("Parameters")
        p.attrs["MetaData:run_name"] = b"verif"
        p.attrs["Gravity:eta"] = b"0.025"
        up = f.create_group("UnusedParameters")
        up.attrs["Foo:bar"] = b"1"
        gs = f.create_group("GravityScheme")
        gs.attrs["Scheme"] = b"FMM"
    sg = f.create_group("SubgridScheme")
    nc_ = sg.create_group("NamedColumns")
    nm = {"ElementMassFractions": [b"Hydrogen", b"Helium", b"Carbon", b"Oxygen"]}
    nm.update(named or {})
    for k, v in nm.items():
        nc_.create_dataset(k, data=np.array(v, dtype="S32"))
    info["named"] = {k: [x.decode() for x in v] for k, v in nm.items()}
    if handle is None:
        f.close()
    return info


SOAP_GROUPS = ["BoundSubhalo", "InputHalos", "SO/200_crit", "SOAP"]


def build_soap(path, rng, *, n=40, box=(1.0, 1.0, 1.0), dims=(3, 3, 3), a=0.5, output_type="SOAP", links=True, chunked=True, apertures=()):
    box = np.asarray(box, float)
    dims = np.asarray(dims)
    nc = int(np.prod(dims))
    size = box / dims
    idx = np.stack(np.meshgrid(*[np.arange(d) for d in dims], indexing="ij"), -1).reshape(-1, 3)
    centres = (idx + 0.5) * size
    perm = rng.permutation(nc)
    order = np.argsort(perm)
    which = rng.integers(0, nc, n) if n else np.zeros(0, int)
    which[rng.random(n) < 0.3] = 0
    cc = np.bincount(which, minlength=nc)
    off = np.zeros(nc, np.int64)
    run = 0
    for c in order:
        off[c] = run
        run += cc[c]
    which = np.concatenate([np.full(cc[c], c) for c in order]).astype(int)
    pos = np.mod((idx[which] + rng.random((n, 3)) * (1 - 1e-9)) * size, box)
    info = dict(path=path, box=box, size=size, centres=centres, a=a, n=n, counts=cc, offsets=off, which=which, pos=pos, fields={})
    with h5py.File(path, "w") as f:
        cells = f.create_group("Cells")
        cells.create_dataset("Centres", data=centres)
        md = cells.create_group("Meta-data")
        md.attrs["dimension"] = dims.astype(np.int32)
        md.attrs["size"] = size
        md.attrs["nr_cells"] = np.array([nc], dtype=np.int32)
        cells.create_dataset("Counts/Subhalos", data=cc.astype(np.int64))
        cells.create_dataset("OffsetsInFile/Subhalos", data=off)

        def put(name, arr, exps, a_exp, dt="f4", **kw):
            arr = np.asarray(arr).astype(dt)
            d = f.create_dataset(name, data=arr, chunks=((int(rng.integers(1, max(2, n))),) + arr.shape[1:]) if chunked and n else None)
            field_attrs(d, exps=exps, a_exp=a_exp, desc=name, **kw)
            info["fields"][name] = dict(values=arr, exps=exps, a_exp=a_exp)
        put("InputHalos/HaloCentre", pos, {"L": 1}, 1.0, "f8")
        put("InputHalos/HaloCatalogueIndex", rng.permutation(n), {}, 0.0, "i8")
        put("InputHalos/IsCentral", rng.integers(0, 2, n), {}, 0.0, "i4")
        put("BoundSubhalo/TotalMass", rng.random(n) + 0.1, {"M": 1}, 0.0)
        put("BoundSubhalo/CentreOfMass", pos + 1e-4, {"L": 1}, 1.0, "f8")
        put("SO/200_crit/TotalMass", rng.random(n) + 0.1, {"M": 1}, 0.0, extra={"Masked": np.bool_(False)})
        put("SOAP/HostHaloIndex", rng.integers(-1, max(n, 1), n), {}, 0.0, "i8")
        for g in apertures:
            put(g + "/TotalMass", rng.random(n) + 0.1, {"M": 1}, 0.0)
            put(g + "/GasMass", rng.random(n) + 0.1, {"M": 1}, 0.0)
        if links:
            f["BoundSubhaloProperties"] = h5py.SoftLink("/BoundSubhalo")
        h = f.create_group("Header")
        at = h.attrs
        at["BoxSize"] = box
        at["NumPart_ThisFile"] = np.zeros(7, np.int64)
        at["NumSubhalos_ThisFile"] = np.array([n])
        at["NumSubhalos_Total"] = np.array([n])
        at["NumFilesPerSnapshot"] = np.array([1], np.int32)
        at["Scale-factor"] = np.array([a])
        at["Redshift"] = np.array([1 / a - 1])
        at["Time"] = np.array([3.25])
        at["Dimension"] = np.array([3], np.int32)
        at["OutputType"] = output_type
        at["SubhaloTypes"] = [*SOAP_GROUPS, *apertures]
        at["SnapshotDate"] = "11:12:13 2024-05-06 UTC"
        at["RunName"] = "verif"
        c = f.create_group("Code")
        c.attrs["Code"] = "SOAP"
        c = f.create_group("Cosmology")
        for k, v in cosmology_attrs(a, True).items():
            c.attrs[k] = v
        p = f.create_group("Parameters")
        p.attrs["calculations"] = "x"
        f.create_group("SWIFT/Header").attrs["Foo"] = 1
        write_units(f)
    return info
