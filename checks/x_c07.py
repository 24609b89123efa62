"""C07 at run time: sequences of frame conversions against the physical value they must keep."""
import numpy as np
import unyt

from vlib.execlib import Violation, case, check


def sw():
    import swiftsimio as s
    from swiftsimio import objects
    return s.cosmo_array, s.cosmo_quantity, objects.cosmo_factor, objects.a, objects.InvalidConversionError


def draw(rng, env, vt=True):
    ca, cq, cf, a, err = sw()
    scale = float(rng.choice([1.0, 0.5, 0.1, 0.01, 1 / 3]))
    p = [-3, -2, -1, 0, 1, 2, 3, 0.5, -0.5][int(rng.integers(0, 9))]
    dt = str(rng.choice(["f8", "f4", "f8"]))
    scalar = bool(rng.random() < 0.25)
    shape = () if scalar else [(3,), (2, 3), (1,), (0,)][int(rng.integers(0, 4))]
    v = np.asarray(rng.uniform(-5, 5, shape)).astype(dt)
    if v.size and rng.random() < 0.15:
        v.flat[0] = rng.choice([np.inf, -np.inf, np.nan, 0.0])
    cm = bool(rng.random() < 0.5) if vt else False
    comp = [None, "DScale2"][int(rng.integers(0, 2))]
    unit = str(rng.choice(["kpc", "Msun", "km/s"]))
    x = (cq(v[()], unit, dtype=dt, cosmo_factor=cf(a ** p, scale), comoving=cm, valid_transform=vt, compression=comp) if scalar else
         ca(v, unit, cosmo_factor=cf(a ** p, scale), comoving=cm, valid_transform=vt, compression=comp))
    env.note(scale=scale, p=p, values=v, comoving=cm, unit=unit, dtype=dt)
    return x, scale, p


def full(x):
    return (x.d.tobytes(), x.dtype.str, str(x.units), x.comoving, str(x.cosmo_factor), x.valid_transform, x.compression, x.shape, type(x))


OTHER = {"kpc": "Mpc", "Msun": "kg", "km/s": "cm/s"}


def eq(u, v, dt):
    return np.allclose(u, v, rtol=2e-5 if dt == "f4" else 1e-10, atol=0, equal_nan=True)


@case(quick=300, thorough=5000)
def conversions_keep_the_physical_value(rng, env):
    x, scale, p = draw(rng, env)
    f = scale ** p
    dt = "f4" if x.dtype == np.float32 else "f8"
    phys = np.array(x.d, "f8") * (f if x.comoving else 1)
    unit = str(x.units)
    hist = []
    for _ in range(int(rng.integers(1, 6))):
        m = str(rng.choice(["to_physical", "to_comoving", "convert_to_physical", "convert_to_comoving", "to", "to_value", "to_physical_value",
                            "to_comoving_value", "in_units"]))
        u = OTHER[unit] if rng.random() < 0.3 else None
        cm = [None, True, False][int(rng.integers(0, 3))]
        hist.append((m, u, cm))
        env.note(history=[list(h) for h in hist])
        before = full(x)
        conv = float((1 * unyt.Unit(unit)).to_value(u)) if u else 1.0
        t_cm = {"to_physical": False, "to_comoving": True, "convert_to_physical": False, "convert_to_comoving": True,
                "to_physical_value": False, "to_comoving_value": True, "in_units": x.comoving}.get(m, cm if cm is not None else x.comoving)
        want = phys * conv / (f if t_cm else 1)
        if m.startswith("convert"):
            r = getattr(x, m)(u) if u else getattr(x, m)()
            check(r is None, f"{m} returned {r!r}")
            if u:
                x.convert_to_units(unit)
                want = want / conv
            y = x
            check(y.comoving is t_cm, f"comoving={y.comoving} after {hist}")
            check(eq(y.d, want, dt), f"values {y.d.tolist()} instead of {want.tolist()} after {hist}")
            check(str(y.units) == unit, f"units {y.units}")
            if before[3] is t_cm and u is None:
                check(full(x) == before, f"{m} changed an array already in that frame")
        else:
            if m in ("to_physical", "to_comoving"):
                r = getattr(x, m)(u) if u else getattr(x, m)()
            elif m in ("to_physical_value", "to_comoving_value"):
                r = getattr(x, m)(u or unit)
            elif m == "in_units":
                r = x.in_units(u or unit)
            else:
                r = getattr(x, m)(u, comoving=cm)
            check(full(x) == before, f"{m} changed the original")
            check(eq(np.asarray(r), want, dt), f"{m}({u}, comoving={cm}) of comoving={before[3]} gave {np.asarray(r).tolist()} instead of {want.tolist()}")
            if "value" not in m:
                check(type(r) is type(x), f"{m} gave a {type(r).__name__}")
                check(r.comoving is t_cm, f"{m}: comoving={r.comoving} instead of {t_cm}")
                check(str(r.cosmo_factor) == before[4] and r.valid_transform == before[5] and r.compression == before[6], f"{m}: attributes changed")
                check(str(r.units) == str(unyt.Unit(u or unit)), f"{m}: units {r.units}")
                if r.ndim and r.size:
                    r[...] = r * 0
                    check(full(x) == before, f"{m}: the result shares memory with the original")
            else:
                check(not isinstance(r, unyt.unyt_array), f"{m} gave a {type(r).__name__}")


@case(quick=150, thorough=2000)
def forbidden_conversions_leave_everything(rng, env):
    ca, cq, cf, a, err = sw()
    kind = ["valid_transform", "unset"][env.k % 2]
    x, scale, p = draw(rng, env, vt=False)
    if kind == "unset":
        x.comoving = None
    before = full(x)
    m = str(rng.choice(["to_comoving", "convert_to_comoving", "to", "to_comoving_value"] + (["to_physical", "convert_to_physical"] if kind == "unset" else [])))
    u = OTHER[str(x.units)] if rng.random() < 0.5 else None
    env.note(kind=kind, method=m, unit=u)
    try:
        if m == "to":
            r = x.to(u, comoving=True)
        elif m == "to_comoving_value":
            r = x.to_comoving_value(u or str(x.units))
        else:
            r = getattr(x, m)(u) if u else getattr(x, m)()
    except Exception as e:
        check(isinstance(e, err), f"{m} raised {type(e).__name__}: {e}")
        check(full(x) == before, f"{m}({u}) raised, but the array changed from {before} to {full(x)}")
        return
    raise Violation(f"{m}({u}) on comoving={before[3]}, valid_transform={before[5]} gave {r!r} / {full(x)}")


@case(quick=60, thorough=500)
def physical_only_arrays_stay_usable(rng, env):
    x, scale, p = draw(rng, env, vt=False)
    before = full(x)
    y = x.to_physical()
    check(y.comoving is False and np.array_equal(y.d, x.d, equal_nan=True) and y.valid_transform is False, "to_physical of a physical-only array")
    x.convert_to_physical()
    check(full(x) == before, "convert_to_physical of a physical-only array changed it")
