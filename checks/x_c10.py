"""C10 at run time: loaded fields against the bytes and attributes in the file."""
import h5py
import numpy as np
import unyt

from vlib import snap
from vlib.execlib import Skip, case, check, internal

PARTS = {0: "gas", 1: "dark_matter", 4: "stars", 5: "black_holes"}
EXPS = [{}, {"L": 1}, {"M": 1, "L": -3}, {"L": 2, "t": -2}, {"T": 1}, {"M": 1, "t": -2, "I": -1}, {"L": 0.5, "M": 1.5}, {"t": -1},
        {"M": 1, "L": 2, "t": -3}, {"I": 1}, {"L": -1.5}]
NAMES = ["Potentials", "Accelerations", "XrayLuminosities", "Ages", "Fluxes", "Tensors", "Spins", "Pressures"]


def build(rng, env, **kw):
    fields = []
    for nm in [NAMES[i] for i in rng.permutation(len(NAMES))[:int(rng.integers(1, 6))]]:
        w = int(rng.choice([0, 0, 1, 3, 4]))
        dt = str(rng.choice(["f4", "f8", "i4", "i8"]))
        conv = int(rng.random() < 0.7)
        fields.append(dict(name=nm, make=(lambda r, n, w=w: r.normal(size=(n, w) if w else n) * 100), dtype=dt,
                           exps=EXPS[int(rng.integers(len(EXPS)))], a_exp=float(rng.choice([0, 1, -1, -2, 2.5, -3, 0.5])),
                           attrs=dict(physical=int(rng.random() < 0.4) if conv else 1, convertible=conv,
                                      comp=bytes(rng.choice([b"None", b"FMantissa9", b"DScale5"])),
                                      extra={} if rng.random() < 0.7 else {"Is Compressed": np.bool_(False)})))
    units = {}
    if rng.random() < 0.6:
        units = dict(L=float(rng.choice([3.08567758e24, 3.08567758e21, 1.0])), M=float(rng.choice([1.98841e43, 1.98841e33, 1.0])),
                     t=float(rng.choice([3.08567758e19, 3.15576e16, 1.0])))
    a = float(rng.choice([1.0, 0.5, 0.0909]))
    counts = {0: int(rng.choice([0, 1, 40, 90])), 1: int(rng.integers(1, 30))}
    p = env.path("a.h5")
    named = {f["name"]: [f"Col{c}" for c in "ABCD"[:w]] for f in fields for w in [4] if rng.random() < 0.0}
    info = snap.build(p, rng, counts=counts, fields=fields, units=units, a=a, be=bool(rng.random() < 0.25), minmax=bool(rng.integers(2)),
                      chunked=bool(rng.integers(2)), named=named)
    env.note(a=a, counts=counts, units=units, fields=[(f["name"], f["dtype"], f["exps"], f["a_exp"], str(f["attrs"])) for f in fields])
    return p, info, a


def snake(name):
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i and (name[i - 1].islower() or name[i - 1].isdigit()):
            out += "_"
        out += c.lower()
    return out


def check_field(x, d, want, a, un, label, sw):
    at = d.attrs
    check(isinstance(x, sw.cosmo_array), f"{label} is a {type(x).__name__}")
    check(x.shape == want.shape, f"{label}: shape {x.shape} instead of {want.shape}")
    check(np.array_equal(np.asarray(x), want), f"{label}: values differ from those stored")
    check(np.asarray(x).dtype.newbyteorder("=") == want.dtype.newbyteorder("="), f"{label}: dtype {x.dtype} instead of {want.dtype}")
    exps = {k: float(at[f"U_{k} exponent"][0]) for k in "ILMTt"}
    conv = 1.0
    for k, u in un.items():
        conv *= u ** exps[k]
    ud = {"L": unyt.dimensions.length, "M": unyt.dimensions.mass, "t": unyt.dimensions.time, "T": unyt.dimensions.temperature,
          "I": unyt.dimensions.current_mks}
    dim = 1
    for k, v in exps.items():
        if v:
            dim = dim * ud[k] ** v
    check((unyt.Unit(x.units).dimensions / dim).simplify() == 1 or unyt.Unit(x.units).dimensions == dim,
          f"{label}: dimensions {x.units.dimensions} instead of {dim}")
    if not exps["I"]:
        cu = x.units.get_cgs_equivalent()
        got = float(x.units.get_conversion_factor(cu)[0])
        check(np.isclose(got, conv, rtol=1e-4), f"{label}: one unit is {got} cgs, the file says {conv}")
    ae = float(at["a-scale exponent"][0])
    check(np.isclose(float(x.cosmo_factor.a_factor), a**ae, rtol=1e-6), f"{label}: a-factor {x.cosmo_factor} instead of a**{ae} at {a}")
    check(np.isclose(float(x.cosmo_factor.scale_factor), a, rtol=1e-12), f"{label}: scale factor {x.cosmo_factor.scale_factor}")
    phys = bool(at["Value stored as physical"][0] == 1)
    check(bool(x.comoving) == (not phys), f"{label}: comoving={x.comoving}, stored as physical: {phys}")
    vt = bool(at["Property can be converted to comoving"][0] == 1)
    check(bool(x.valid_transform) == vt, f"{label}: valid_transform={x.valid_transform}, file says {vt}")
    desc = at["Description"]
    desc = desc.decode() if isinstance(desc, bytes) else str(desc)
    check(desc in x.name, f"{label}: described as {x.name!r}")
    if at.get("Is Compressed", True):
        comp = at["Lossy compression filter"]
        comp = comp.decode() if isinstance(comp, bytes) else str(comp)
        check(x.compression == comp, f"{label}: compression {x.compression!r} instead of {comp!r}")


@case(quick=30, thorough=1200)
def every_field(rng, env):
    import swiftsimio as sw
    p, info, a = build(rng, env)
    masked = rng.random() < 0.6
    mk = None
    if masked:
        mk = sw.mask(p)
        if rng.random() < 0.5:
            mk.constrain_spatial([[b * x, b * y] for b, (x, y) in zip(mk.metadata.boxsize, np.sort(rng.random((3, 2)), 1))])
        elif info["num"][1]:
            lo, hi = np.sort(rng.random(2))
            mk.constrain_mask("dark_matter", "masses", (lo + 0.1) * mk.units.mass, (hi + 0.1) * mk.units.mass)
    ds = sw.load(p, mask=mk)
    with h5py.File(p, "r") as f:
        un = {k: float(f["Units"].attrs[n][0]) for k, n in (("L", "Unit length in cgs (U_L)"), ("M", "Unit mass in cgs (U_M)"),
              ("t", "Unit time in cgs (U_t)"), ("T", "Unit temperature in cgs (U_T)"))}
        order = [(t, nm) for t in info["types"] for nm in info["types"][t]]
        for i in rng.permutation(len(order)):
            t, nm = order[i]
            g = getattr(ds, PARTS[t])
            d = f[f"PartType{t}/{nm}"]
            rows = np.arange(d.shape[0])
            if masked:
                r = getattr(mk, PARTS[t])
                if r is None:
                    continue
                r = np.asarray(r).reshape(-1, 2)
                rows = np.concatenate([np.arange(lo, hi) for lo, hi in r] + [np.arange(0)]).astype(int)
                check(len(rows) == getattr(mk, PARTS[t] + "_size"), "mask size")
            stored = d[...][rows]
            check(getattr(g, "_" + ("particle_ids" if nm == "ParticleIDs" else snake(nm)), None) is None or nm in info["named"],
                  f"{nm} was read before it was asked for")
            x = getattr(g, "particle_ids" if nm == "ParticleIDs" else snake(nm))
            if nm in info["named"]:
                for j, c in enumerate(info["named"][nm]):
                    check_field(getattr(x, c.lower()), d, stored[:, j], a, un, f"{PARTS[t]}.{nm}.{c}", sw)
                continue
            check_field(x, d, stored, a, un, f"{PARTS[t]}.{nm}", sw)
            check(getattr(g, "particle_ids" if nm == "ParticleIDs" else snake(nm)) is x, f"{nm} is read again on each access")


@case(quick=12, thorough=250)
def set_delete_independent(rng, env):
    import swiftsimio as sw
    p, info, a = build(rng, env)
    ds = sw.load(p)
    other = sw.load(p)
    names = [("particle_ids" if n == "ParticleIDs" else snake(n), n) for n in info["types"][1] if n not in info["named"]]
    state = {}
    with h5py.File(p, "r") as f:
        stored = {s: f["PartType1/" + n][...] for s, n in names}
    ops = []
    for _ in range(int(rng.integers(3, 15))):
        s, n = names[int(rng.integers(len(names)))]
        op = str(rng.choice(["get", "set", "del", "modify"]))
        ops.append((op, s))
        env.note(ops=ops)
        if op == "set":
            v = getattr(ds.dark_matter, s) * 1
            v = sw.cosmo_array(np.asarray(v) * 0 + 7, v.units, comoving=v.comoving, cosmo_factor=v.cosmo_factor)
            setattr(ds.dark_matter, s, v)
            state[s] = np.asarray(v).copy()
        elif op == "del":
            delattr(ds.dark_matter, s)
            state.pop(s, None)
        elif op == "modify":
            v = getattr(ds.dark_matter, s)
            v[...] = 3 * v.units if v.dtype.kind == "f" else v
            state[s] = np.asarray(v).copy()
        for s2, n2 in names:
            want = state.get(s2, stored[s2])
            check(np.array_equal(np.asarray(getattr(ds.dark_matter, s2)), want), f"{s2} is wrong after {ops}")
    for s, n in names:
        check(np.array_equal(np.asarray(getattr(other.dark_matter, s)), stored[s]), f"{s} of another dataset changed after {ops}")
    with h5py.File(p, "r") as f:
        for s, n in names:
            check(np.array_equal(f["PartType1/" + n][...], stored[s]), f"{n} changed in the file")


@case(quick=12, thorough=150)
def set_delete_columns(rng, env):
    """Named columns of a field: what is set is what is read, what is deleted is read from the file again, no other is touched."""
    import swiftsimio as sw
    p, info, a = build(rng, env)
    ds = sw.load(p)
    fields = [(pt, n) for pt in info["types"] for n in info["types"][pt] if n in info["named"]]
    if not fields:
        env.trivial()
        return
    pt, n = fields[int(rng.integers(len(fields)))]
    g = getattr(ds, snap.NAMES[pt])
    nm = next(x for x in g.group_metadata.field_names if x.replace("_", "") == n.lower().replace("_", ""))
    cols = getattr(g, nm)
    names = list(cols.named_columns)
    with h5py.File(p, "r") as f:
        stored = f[f"PartType{pt}/{n}"][...]
    state, ops = {}, []
    for _ in range(int(rng.integers(3, 10))):
        j = int(rng.integers(len(names)))
        op = str(rng.choice(["get", "set", "del"]))
        ops.append((op, names[j]))
        env.note(field=n, ops=ops)
        if op == "set":
            v = getattr(cols, names[j])
            setattr(cols, names[j], sw.cosmo_array(np.asarray(v) * 0 + 7, v.units, comoving=v.comoving, cosmo_factor=v.cosmo_factor))
            state[j] = stored[:, j] * 0 + 7
        elif op == "del":
            delattr(cols, names[j])
            state.pop(j, None)
        for i in range(len(names)):
            check(np.array_equal(np.asarray(getattr(cols, names[i])), state.get(i, stored[:, i])), f"column {names[i]} of {n} is wrong after {ops}")


@case(quick=40, thorough=1500)
def attribute_reader(rng, env):
    """The attribute readers on their own, with attributes missing as in old snapshots."""
    mod = "swiftsimio.metadata.field.attr_reader"
    fu = internal(mod, "load_field_units", {}, None)
    fc = internal(mod, "load_field_cosmo_factor", {}, None)
    fp = internal(mod, "load_field_physical", {})
    fv = internal(mod, "load_field_valid_transform", {})

    class U:
        current, length, mass = unyt.unyt_quantity(1.0, "A"), unyt.unyt_quantity(2.0, "Mpc"), unyt.unyt_quantity(1e10, "Msun")
        temperature, time = unyt.unyt_quantity(1.0, "K"), unyt.unyt_quantity(3.0, "Gyr")

    class M:
        scale_factor = float(rng.uniform(0.05, 1))
    ex = {k: float(rng.choice([0, 0, 0, 1, -1, 2, -3, 0.5, 1 / 3, -0.25, 0.01, 0.001])) for k in "ILMTt"}
    at = {f"U_{k} exponent": np.array([v]) for k, v in ex.items()}
    ae = float(rng.choice([0, 1, -2, 0.5, -3, 1 / 3, -0.01]))
    phys, conv = int(rng.integers(2)), int(rng.integers(2))
    have = [bool(rng.integers(2)) for _ in range(3)]
    if have[0]:
        at["a-scale exponent"] = np.array([ae])
    if have[1]:
        at["Value stored as physical"] = np.array([phys])
    if have[2]:
        at["Property can be converted to comoving"] = np.array([conv])
    env.note(exponents=ex, a_exp=ae, physical=phys, convertible=conv, present=have)
    u = fu(at, U)
    want = 1.0
    for k, q in (("I", U.current), ("L", U.length), ("M", U.mass), ("T", U.temperature), ("t", U.time)):
        want = want * float(q.in_mks().value) ** ex[k]
    got = float(unyt.unyt_quantity(1.0, u).in_mks().value)
    check(np.isclose(got, want, rtol=1e-9), f"unit {u} is {got} in mks instead of {want}")
    cf = fc(at, M)
    check(np.isclose(float(cf.a_factor), M.scale_factor ** (ae if have[0] else 0.0), rtol=1e-9), f"cosmo factor {cf}")
    check(bool(fp(at)) == bool(phys if have[1] else 0), f"physical flag {fp(at)}")
    check(bool(fv(at)) == bool(conv if have[2] else 1), f"convertible flag {fv(at)}")
