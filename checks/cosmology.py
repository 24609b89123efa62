"""Contracts of the conversion to an astropy cosmology (C25)."""
import inspect

import numpy as np
import z3

from checks import handles as H
from checks.handles import Rec, mod, model
from checks.reading import DIMS, bound, unit
from pyvc.arrays import SArr, from_concrete
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, is_sym, kind, land, lnot, lor, mk, term

C = "swiftsimio.conversions"
SCALARS = {"Omega_m": "Om0", "Omega_b": "Ob0", "Omega_lambda": "Ode0", "w_0": "w0", "w_a": "wa"}
NEUTRINOS = {"N_ur": "N_ur", "M_nu_eV": "M_nu_eV", "deg_nu": "deg_nu"}


def astropy_there():
    if not mod("swiftsimio.optional_packages").ASTROPY_AVAILABLE:
        raise CannotAttach("astropy is not installed")


def conversion_job(name="swift_cosmology_to_astropy", through=None):
    job = Job(name, budget_s=120)

    def body(job, I, c):
        astropy_there()
        M = mod(C)
        st = {k: c.real(k) for k in SCALARS}
        h0, om_r, T, neff = c.real("H0"), c.real("Omega_r"), c.real("T_CMB"), c.real("N_eff")
        c.assume(land(h0 > 0, om_r >= 0))
        at = {k: [v] for k, v in st.items()}
        at["H0 [internal units]"], at["Omega_r"] = [h0], [om_r]
        have_T, have_N = c.choose(2), c.choose(2)
        if have_T:
            at["T_CMB_0 [K]"] = [T]
        if have_N:
            at["N_eff"] = [neff]
        nu = {k: SymObj(Rec, {}, name=k) for k in NEUTRINOS}
        have = c.choose(4)      # all three, or one of them missing
        for i, k in enumerate(NEUTRINOS):
            if have != i + 1:
                at[k] = nu[k]
        units = SymObj(Rec, {n: unit({q: int(q == k) for q in DIMS}, n) for k, n in DIMS.items()}, name="units")
        per_s = c.real("time_unit_per_second")
        c.assume(per_s > 0)
        quantities = []

        def quantity(value, units=None):
            ok = isinstance(units, SymObj) and "exps" in units.attrs and all(units.attrs["exps"][k] == (-1 if k == "t" else 0) for k in DIMS)
            if not ok:
                c.oblige(False, "the Hubble constant is an inverse time of the snapshot's unit system", kind="pre")
            q = SymObj(M.unyt_quantity, {"value": value}, name="H0")

            def to_value(u):
                if u != "1/s":
                    raise Unsupported(f"H0 in {u}")
                return value * per_s
            q.attrs["to_value"] = model(to_value)
            a = SymObj(Rec, {"of": q}, name="astropy H0")
            q.attrs["to_astropy"] = model(lambda: a)
            quantities.append((q, a))
            return q
        I.class_models[M.unyt_quantity] = quantity
        job.assumed.add("unyt: to_astropy gives the same quantity; to_value converts the unit")
        AU = M.astropy_units

        def aq(value, un):
            o = SymObj(Rec, {"value": value}, name="astropy quantity")

            def to_value(u):
                if AU.Unit(u) != AU.Unit(un):
                    raise Unsupported("conversion")
                return value
            o.attrs["to_value"] = model(to_value)
            return o
        I.class_models[AU.Quantity] = aq
        made = []

        def cosmology(*a, **k):
            if a:
                k = {**bound(M.w0waCDM.__init__, (None,) + a, {}), **k}
            r = SymObj(Rec, {}, name="cosmology")
            made.append((r, k))
            return r
        I.class_models[M.w0waCDM] = cosmology
        job.assumed.add("contract:astropy w0waCDM has the parameters it is given")
        masses = SymObj(Rec, {}, name="neutrino masses")
        calls = []

        def neutrinos(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            calls.append(bound(M.swift_neutrinos_to_astropy, a, k))
            return masses
        job.contracts[funcval(M.swift_neutrinos_to_astropy).qual] = neutrinos

        def root(x, p):
            if is_sym(p) or p != 0.25:
                raise Unsupported("symbolic power")
            r = c.real("fourth_root")
            c.assume(land(r >= 0, compare("==", r * r * r * r, x)))
            return r
        c.power_rule = root
        r = I.call(funcval(M.swift_cosmology_to_astropy), [at, units], {})
        c.oblige(len(made) == 1 and r is made[0][0], "the result is the cosmology built")
        k = made[0][1]
        hs = [q for q, a in quantities if a is k.get("H0")]
        c.oblige(len(hs) == 1, "the Hubble constant is one of the quantities made")
        if hs:
            c.oblige(compare("==", hs[0].attrs["value"], h0), "the Hubble constant is the stored one")
        for s, p in SCALARS.items():
            c.oblige(compare("==", k[p], st[s]) if p in k else False, f"{p} is the stored {s}")
        ne = neff if have_N else 3.04
        c.oblige(compare("==", k["Neff"], ne) if "Neff" in k else False, "N_eff is the stored one (3.04 without one)")
        c.oblige(k.get("m_nu") is masses and len(calls) == 1, "the neutrino masses are those of the stored neutrinos")
        if calls:
            c.oblige(compare("==", calls[0]["N_eff"], ne), "neutrinos are made for this N_eff")
            for i, q in enumerate(NEUTRINOS):
                got = calls[0][q]
                want = {"N_ur": 3.04, "M_nu_eV": 0.0, "deg_nu": 0.0}[q]
                c.oblige(got is nu[q] if have != i + 1 else (not isinstance(got, SymObj) and got == want), f"{q} is the stored one (a massless default without one)")
        t = k.get("Tcmb0")
        c.oblige(t is not None, "the radiation temperature is set")
        if t is not None:
            G, sb, cc = M.const.G.cgs.value, M.const.sigma_sb.cgs.value, M.const.c.cgs.value
            # the fourth power of the temperature that gives the stored radiation density
            t4 = om_r * (3.0 / (8.0 * np.pi * G) * (h0 * per_s) ** 2) / (4.0 * sb / cc**3)
            rad = land(compare("<=", t * t * t * t, t4 * (1 + 1e-9)), compare(">=", t * t * t * t, t4 * (1 - 1e-9)), compare(">=", t, 0))
            if have_T:
                c.oblige(z3.Implies(as_bool(compare("!=", T, 0)), as_bool(compare("==", t, T))), "the radiation temperature is the stored one")
                c.oblige(z3.Implies(as_bool(compare("==", T, 0)), as_bool(rad)), "without a temperature, the radiation density gives it")
            else:
                c.oblige(rad, "without a temperature, the radiation density gives it")
    return job.run(body)


def extract_job():
    """SWIFTMetadata.extract_cosmology."""
    job = Job("SWIFTMetadata.extract_cosmology", budget_s=30)

    def body(job, I, c):
        M = mod("swiftsimio.metadata.objects")
        case = c.choose(4)
        flag = c.int("cosmological_run")
        raw = [None, {"Cosmological run": flag}, {}, {"Cosmological run": [flag]}][case] if case != 3 else None
        if case == 3:
            raw = {"Cosmological run": from_concrete(np.array([1]))} if False else {"Cosmological run": 1}
        tok = SymObj(Rec, {}, name="cosmology")
        calls = []

        def conv(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            calls.append(bound(mod(C).swift_cosmology_to_astropy, a, k))
            return tok
        job.contracts[funcval(mod(C).swift_cosmology_to_astropy).qual] = conv
        units = SymObj(Rec, {}, name="units")
        me = SymObj(M.SWIFTSnapshotMetadata, {"cosmology_raw": raw, "units": units}, name="metadata")
        I.call(I.getattr(me, "extract_cosmology"), [], {})
        run = compare("!=", flag, 0) if case == 1 else case == 3
        got = me.attrs.get("cosmology", 0)
        c.oblige(run if got is tok else lnot(run) if is_sym(run) else not run, "a cosmology exactly for cosmological runs")
        c.oblige(got is tok or got is None, "the cosmology is that of the stored parameters, or none")
        if got is tok:
            c.oblige(calls[0]["cosmo"] is raw and calls[0]["units"] is units, "the stored parameters and units are converted")
    return job.run(body)


def neutrinos_job(k):
    """swift_neutrinos_to_astropy for k species: the masses are arbitrary, the multiplicities up to 3 (bounded)."""
    job = Job(f"swift_neutrinos_to_astropy ({k} species)", budget_s=120)
    job.max_paths = 20000

    def body(job, I, c):
        astropy_there()
        M = mod(C)
        job.used_bound = True
        m = [c.real(f"mass_{i}") for i in range(k)]
        deg = [c.choose(3 if k > 1 else 4) for _ in range(k)]
        fine = c.choose(3)      # 0: consistent; 1: a multiplicity that is no whole number; 2: wrong total
        u = c.choose(3)
        n_ur, n_eff = c.real("N_ur"), c.real("N_eff")
        c.assume(land(n_ur >= u, n_ur < u + 1))
        total = sum(deg) + u
        degs = list(deg)
        if fine == 1:
            if not k:
                return
            f = c.real("fraction")
            c.assume(land(f > 0, f < 1))
            degs[-1] = degs[-1] + f
        if fine == 2:
            e = c.int("total")
            c.assume(land(e >= 0, compare("!=", e, total)))
            c.assume(land(n_eff >= e, n_eff < e + 1))
        else:
            c.assume(land(n_eff >= total, n_eff < total + 1))
        scalar = k == 1 and c.choose(2)
        arr = lambda v: SArr((len(v),), lambda i: _pick(v, i), "r")
        out = []

        def ev(o):
            o = from_concrete(o) if isinstance(o, np.ndarray) else o
            r = SymObj(Rec, {"values": o}, name="masses in eV")
            out.append(r)
            return r
        job.overrides[(C, "astropy_units")] = SymObj(Rec, {"eV": SymObj(Rec, {("special", "__rmul__"): model(ev)}, name="eV")}, name="astropy.units")
        try:
            r = I.call(funcval(M.swift_neutrinos_to_astropy), [n_eff, n_ur, m[0] if scalar else arr(m), degs[0] if scalar else arr(degs)], {})
        except AttributeError as e:
            if "astropy" not in str(e):
                raise
            c.oblige(fine != 0, "neutrinos astropy can represent are accepted")
            return
        c.oblige(fine == 0, "neutrinos astropy cannot represent are rejected")
        v = r.attrs["values"]
        want = [x for x, d in zip(m, deg) for _ in range(d)] + [0.0] * u
        c.oblige(compare("==", v.shape[0], len(want)), "one mass per neutrino")
        for i, x in enumerate(want):
            c.oblige(compare("==", v.get(i), x), "each species has its mass as often as stored, the others none")
    return job.run(body)


def _pick(v, i):
    if not is_sym(i):
        return v[int(i)]
    from pyvc.values import ite
    r = v[-1]
    for q in range(len(v) - 2, -1, -1):
        r = ite(compare("==", i, q), v[q], r)
    return r
