"""C25 at run time: the astropy cosmology against the stored parameters."""
import numpy as np
import unyt

from vlib import snap
from vlib.execlib import Skip, case, check, internal


def draw(rng):
    """Stored parameters and the neutrino masses they mean (None: cannot be represented)."""
    a = float(rng.choice([1.0, 0.5, 0.1]))
    om = float(rng.uniform(0.05, 0.9))
    curved = rng.random() < 0.5
    d = {"Omega_m": om, "Omega_b": float(rng.uniform(0.01, om)), "Omega_lambda": float(rng.uniform(0, 1.2)) if curved else 1 - om,
         "w_0": float(rng.choice([-1.0, -0.9, -1.1])), "w_a": float(rng.choice([0.0, 0.1, -0.2])),
         "Omega_r": float(rng.choice([0.0, 5e-5, 1e-4])), "h": float(rng.uniform(0.4, 1.0))}
    d["Omega_cdm"] = om - d["Omega_b"]
    kind = str(rng.choice(["massless", "massive", "two", "deg", "absent", "bad_deg", "bad_sum", "zero_eff"]))
    extra, masses, neff = {}, None, 3.04
    if kind == "massless":
        neff = float(rng.choice([3.04, 3.046, 3.0]))
        extra = dict(N_eff=[neff], N_ur=[neff], M_nu_eV=[0.0], deg_nu=[0.0])
        masses = [0.0] * 3
    elif kind == "massive":
        neff, m = 3.046, float(rng.uniform(0.01, 0.5))
        extra = dict(N_eff=[neff], N_ur=[2.0308], M_nu_eV=[m], deg_nu=[1.0])
        masses = [m, 0.0, 0.0]
    elif kind == "two":
        neff, m = 3.044, rng.uniform(0.01, 0.5, 2)
        extra = dict(N_eff=[neff], N_ur=[1.0196], M_nu_eV=list(m), deg_nu=[1.0, 1.0])
        masses = [m[0], m[1], 0.0]
    elif kind == "deg":
        neff, m = 3.046, rng.uniform(0.01, 0.5, 2)
        two = bool(rng.integers(2))
        extra = dict(N_eff=[neff], N_ur=[0.0], M_nu_eV=list(m) if two else [m[0]], deg_nu=[1.0, 2.0] if two else [3.0])
        masses = [m[0], m[1], m[1]] if two else [m[0]] * 3
    elif kind == "bad_deg":
        extra = dict(N_eff=[3.046], N_ur=[1.5], M_nu_eV=[0.1], deg_nu=[1.5])
    elif kind == "bad_sum":
        extra = dict(N_eff=[3.046], N_ur=[2.0], M_nu_eV=[0.1], deg_nu=[float(rng.choice([0.0, 2.0]))])
    elif kind == "zero_eff":
        neff = 0.0
        extra = dict(N_eff=[0.0], N_ur=[0.0], M_nu_eV=[0.0], deg_nu=[0.0])
        masses = []
    else:
        masses = [0.0] * 3
    T = float(rng.choice([2.7255, 2.7, 0.0, 0.3]))
    keepT = rng.random() < 0.8
    if keepT:
        extra["T_CMB_0 [K]"] = [T]
    return a, d, extra, (T if keepT and T else None), kind, masses, neff


def compare(c, d, extra, T, masses, neff, H0):
    check(np.isclose(c.H0.to_value("km/(s Mpc)"), H0, rtol=2e-5), f"H0 = {c.H0} instead of {H0} km/s/Mpc")
    for attr, key in (("Om0", "Omega_m"), ("Ob0", "Omega_b"), ("Ode0", "Omega_lambda"), ("w0", "w_0"), ("wa", "w_a")):
        check(np.isclose(float(getattr(c, attr)), d[key], rtol=1e-12, atol=1e-15), f"{attr} = {getattr(c, attr)} but {key} = {d[key]}")
    if T is not None:
        check(np.isclose(c.Tcmb0.to_value("K"), T), f"Tcmb0 = {c.Tcmb0} instead of {T}")
    else:
        check(np.isclose(c.Ogamma0, d["Omega_r"], rtol=1e-4, atol=1e-18), f"photon density {c.Ogamma0} but Omega_r = {d['Omega_r']}")
    check(np.isclose(float(c.Neff), neff), f"Neff = {c.Neff} instead of {neff}")
    if c.Tcmb0.value > 0 and neff >= 1:
        got = np.sort(np.atleast_1d(c.m_nu.to_value("eV")))
        check(len(got) == len(masses) and np.allclose(got, np.sort(masses)), f"neutrino masses {got} instead of {masses}")


@case(quick=60, thorough=1500)
def through_a_snapshot(rng, env):
    import swiftsimio as sw
    a, d, extra, T, kind, masses, neff = draw(rng)
    scale = {}
    if rng.random() < 0.4:
        scale = dict(t=float(rng.choice([3.15576e16, 3.15576e13, 3.08567758e19])))
    tun = scale.get("t", snap.GYR)
    H0 = 100 * d["h"]
    h_int = H0 * 1e5 / 3.08567758149e24 * tun
    cosmo = {k: np.array([v]) for k, v in d.items()}
    cosmo.update({k: np.array(v) for k, v in extra.items()})
    cosmo["H0 [internal units]"] = np.array([h_int])
    run = rng.random() < 0.85
    env.note(kind=kind, parameters=d, extra=extra, a=a, cosmological=run)
    p = env.path("a.h5")
    info = snap.build(p, rng, counts={1: 3}, a=a, cosmo=run, cosmology=cosmo, units=scale)
    import h5py
    with h5py.File(p, "r+") as f:
        at = f["Cosmology"].attrs
        for k in ("N_eff", "N_ur", "M_nu_eV", "deg_nu", "T_CMB_0 [K]"):
            if k not in extra and k in at:
                del at[k]
        if not run and rng.random() < 0.3:
            del f["Cosmology"]
    try:
        m = sw.load(p).metadata
    except AttributeError:
        check(run and kind in ("bad_deg", "bad_sum"), f"a representable cosmology ({kind}) was rejected")
        return
    if not run:
        check(m.cosmology is None, f"a non-cosmological snapshot gives {m.cosmology}")
        return
    check(kind not in ("bad_deg", "bad_sum"), f"a cosmology astropy cannot represent was converted anyway: {m.cosmology}")
    compare(m.cosmology, d, extra, T, masses, neff, H0)


@case(quick=80, thorough=2000)
def neutrino_masses(rng, env):
    f = internal("swiftsimio.conversions", "swift_neutrinos_to_astropy", 1, 1, 1, 1)
    k = int(rng.integers(0, 4))
    m = rng.uniform(0, 1, k)
    deg = rng.integers(0, 3, k).astype(float)
    nur = float(rng.choice([0.0, 1.0196, 2.0328, 3.046]))
    neff = int(deg.sum()) + int(nur) + float(rng.choice([0.0, 0.046]))
    form = int(rng.integers(0, 3))
    if k == 1 and rng.random() < 0.5:
        args = (neff, nur, float(m[0]), float(deg[0]))
    else:
        args = (neff, [nur, np.array([nur]), np.array(nur)][form], m, deg)
    env.note(N_eff=neff, N_ur=nur, M=m, deg=deg)
    if int(neff) == 0 and k == 0:
        env.trivial()
    out = f(*args).to_value("eV")
    want = [x for x, n in zip(m, deg) for _ in range(int(n))] + [0.0] * int(nur)
    check(len(out) == len(want) and np.allclose(np.sort(out), np.sort(want)), f"masses {out} instead of {want}")
    for bad in ((neff + 1, nur, m, deg), (neff, nur + 1, m, deg), (neff, nur, m, deg + 0.5)):
        if k == 0 and bad[3] is not deg:
            continue
        try:
            f(*bad)
        except AttributeError:
            continue
        check(False, f"inconsistent neutrino parameters {bad} were accepted")
