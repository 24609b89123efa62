"""Contracts of the snapshot writer (C12)."""
import h5py
import numpy as np
import sympy
import unyt
import z3

from checks.h5tree import Tree, paths
from checks.handles import Rec, mod, model
from checks.reading import bound
from pyvc import values as V
from pyvc.arrays import SArr, fresh_array
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, is_sym, kind, land, lnot, lor, mk, term

W = "swiftsimio.snapshot_writer"
SYSTEM = unyt.unit_systems.galactic_unit_system


def classes():
    """The classes of the particle datasets, as the writer makes them."""
    M = mod(W)
    sw = mod("swiftsimio.objects")
    box = sw.cosmo_array([1.0, 1.0, 1.0], unyt.Mpc, comoving=True, scale_factor=1.0, scale_exponent=1)
    w = M.SWIFTSnapshotWriter(boxsize=box, unit_system=SYSTEM)
    names = mod("swiftsimio.metadata").particle_types.particle_name_underscores
    return {k: type(getattr(w, n)) for k, n in names.items()}, dict(names), {n: getattr(mod("swiftsimio.metadata").required_fields, n) for n in names.values()}


HANDLES = dict(coordinates="Coordinates", velocities="Velocities", masses="Masses", smoothing_lengths="SmoothingLengths",
               internal_energy="InternalEnergy", particle_ids="ParticleIDs")
L_, M_, T_ = unyt.dimensions.length, unyt.dimensions.mass, unyt.dimensions.time
DIMS = dict(coordinates=L_, velocities=L_ / T_, masses=M_, smoothing_lengths=L_, internal_energy=L_ ** 2 / T_ ** 2, particle_ids=sympy.S.One)
NEEDED = {"gas": ["coordinates", "velocities", "masses", "particle_ids", "smoothing_lengths", "internal_energy"],
          "stars": ["coordinates", "velocities", "masses", "particle_ids", "smoothing_lengths"]}
BASIC = ["coordinates", "velocities", "masses", "particle_ids"]


def tables_job():
    """What is required of every type, and its dimension."""
    job = Job("required fields", budget_s=30)

    def body(job, I, c):
        cls, names, req = classes()
        c.oblige({k: v for k, v in names.items() if k in [f"PartType{i}" for i in range(7)]} ==
                 {f"PartType{i}": n for i, n in enumerate(["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos"])}, "types have SWIFT's numbers")
        for n, fields in req.items():
            want = NEEDED.get(n, BASIC)
            c.oblige(set(want) <= set(fields), f"the fields SWIFT requires of {n} are required")
            for f in want:
                c.oblige(fields[f]["handle"] == HANDLES[f], f"{n}.{f} is stored under SWIFT's name")
                c.oblige(fields[f]["dimensions"] == DIMS[f], f"{n}.{f} has its dimension")
            c.oblige(len({f["handle"] for f in fields.values()}) == len(fields), f"no two fields of {n} share a name")
    return job.run(body)


def a_writer(c, **attrs):
    M = mod(W)
    system = SymObj(unyt.UnitSystem, {}, name="unit_system")
    a = c.real("a")
    c.assume(a > 0)
    return SymObj(M.SWIFTSnapshotWriter, {"unit_system": system, "scale_factor": a, **attrs}, name="writer"), system, a


def a_dataset(ptype, cls, names, writer, fields):
    o = SymObj(cls[ptype], {"writer": writer, "unit_system": writer.attrs["unit_system"], "particle_type": ptype, "particle_name": names[ptype]}, name=names[ptype])
    for k, v in fields.items():
        o.attrs["_" + k] = v
    return o


class Field:
    pass


def a_field(c, dims, a=None, shape=None, name="field"):
    """A cosmo_array: dimension of its unit, scale factor, expression a**p."""
    sw = mod("swiftsimio.objects")
    log = []
    p, u, fac = c.real("exponent"), c.real("unit_in_cgs"), c.real("a_factor")
    sym = sw.a
    expr = SymObj(Rec, {"as_powers_dict": model(lambda: {sym: p})}, name="expr")
    cf = SymObj(sw.cosmo_factor, {"scale_factor": a if a is not None else c.real("a_of_field"), "a_factor": fac, "expr": expr}, name="cosmo_factor")
    units = SymObj(unyt.Unit, {"dimensions": dims, "base_value": u}, name="units")
    f = SymObj(sw.cosmo_array, {"units": units, "cosmo_factor": cf, "shape": shape, "comoving": c.bool("comoving"),
                                "convert_to_base": model(lambda s=None: log.append(("base", s))), "convert_to_comoving": model(lambda: log.append(("comoving",))),
                                "unit_quantity": SymObj(Rec, {"in_cgs": model(lambda: u), "in_base": model(lambda s="mks": u if s == "cgs" else None)}, name="unit_quantity")}, name=name)
    f.__dict__.update(log=log, p=p, u=u, fac=fac)
    return f


def setter_job(name):
    """Assignment of a field: what is accepted, and what is kept."""
    job = Job(f"assignment of {name}", budget_s=60)

    def body(job, I, c):
        M, sw = mod(W), mod("swiftsimio.objects")
        cls, names, req = classes()
        w, system, a = a_writer(c)
        ptype = "PartType0"
        if not isinstance(getattr(cls[ptype], name, None), property):
            raise CannotAttach(name)
        old = SymObj(Rec, {}, name="old value")
        ds = a_dataset(ptype, cls, names, w, {k: None for k in req["gas"]})
        ds.attrs["_" + name] = old
        made = []

        def make(value=None, *args, **k):
            o = SymObj(sw.cosmo_array, {"value": value, "unit": k.get("units", args[0] if args else None), "kw": k}, name="made")
            made.append(o)
            return o
        I.class_models[sw.cosmo_array] = make
        what = c.choose(3)      # right dimension, wrong dimension, no cosmo_array
        dims = DIMS[name] if what == 0 else L_ * M_
        if what == 2:
            f = SymObj(unyt.unyt_array, {"units": SymObj(unyt.Unit, {"dimensions": DIMS[name]}, name="units"), "convert_to_base": model(lambda *x: None)}, name="unyt_array")
        else:
            f = a_field(c, dims)
        try:
            I.setattr(ds, name, f)
            failed = None
        except (AssertionError, ValueError, TypeError) as e:
            failed = e
        except unyt.exceptions.InvalidUnitEquivalence as e:
            failed = e
        same_a = compare("==", f.attrs["cosmo_factor"].attrs["scale_factor"], a) if what < 2 else True
        if failed is not None:
            c.oblige(lnot(same_a) if what == 0 else True, "a field of the right dimension at the right scale factor is accepted")
            c.oblige(ds.attrs["_" + name] is old, "a rejected value is not kept")
            return
        c.oblige(what == 0, "a wrong dimension, or values without cosmology, are rejected")
        c.oblige(same_a, "values at another scale factor are rejected")
        c.oblige(ds.attrs["_" + name] is f, "the value given is kept")
        c.oblige(any(x[0] == "base" and x[1] is SYSTEM for x in f.log), "it is converted to the units of the writer")
        c.oblige(("comoving",) in f.log, "it is converted to comoving")
        c.oblige(I.getattr(ds, name) is f, "and read back")
    return job.run(body)


def ids_setter_job():
    job = Job("assignment of particle_ids", budget_s=60)

    def body(job, I, c):
        M, sw = mod(W), mod("swiftsimio.objects")
        cls, names, req = classes()
        w, system, a = a_writer(c)
        ds = a_dataset("PartType0", cls, names, w, {k: None for k in req["gas"]})
        n = c.int("n")
        c.assume(n >= 0)
        ids = fresh_array("ids", (n,), "i")
        ids.frozen = True
        f = ids.snapshot()
        u = c.int("distinct")
        i = c.int("at")
        c.assume(land(u >= 0, u <= n, i >= 0, i < n))
        job.assumed.add("contract:numpy.unique has as many elements as there are distinct ones")

        def unique(x, **k):
            if k:
                raise Unsupported("unique")
            c.oblige(x is ids or (isinstance(x, SArr) and compare("==", x.get(i), f(i))), "all ids are compared", kind="pre")
            return SArr((u,), lambda k: 0, "i", "unique")
        I.models[np.unique] = unique
        bad = c.bool("some id is not positive")
        k0 = c.int("where")
        c.assume(z3.Implies(as_bool(bad), as_bool(land(k0 >= 0, k0 < n, compare("<=", f(k0), 0)))))
        q = z3.Int("q!i")
        c.assume(z3.Implies(z3.Not(as_bool(bad)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < term(n)), term(f(SV(q))) > 0), patterns=[term(f(SV(q)))])))
        made = []

        def make(value=None, *args, **k):
            o = SymObj(sw.cosmo_array, {"value": value, "unit": k.get("units", args[0] if args else None), "kw": k}, name="made")
            made.append(o)
            return o
        I.class_models[sw.cosmo_array] = make
        try:
            I.setattr(ds, "particle_ids", ids)
        except (AssertionError, ValueError, TypeError):
            c.oblige(lor(bad, compare("!=", u, n)), "distinct positive ids are accepted")
            c.oblige(ds.attrs["_particle_ids"] is None, "rejected ids are not kept")
            return
        c.oblige(land(lnot(bad), compare("==", u, n)), "ids that are not positive, or repeated, are rejected")
        x = ds.attrs["_particle_ids"]
        c.oblige(x in made and x.attrs["value"] is ids, "the ids given are kept")
        c.oblige(x.attrs["unit"] == unyt.dimensionless, "ids have no unit")
        kw = x.attrs["kw"]
        c.oblige(kw.get("comoving") is True and kw.get("scale_factor") is a and kw.get("scale_exponent") == 0, "ids do not depend on the scale factor")
    return job.run(body)


def consistent_job(ptype):
    """check_empty, check_consistent: complete and of one length, or rejected."""
    job = Job(f"check_consistent ({ptype})", budget_s=90)

    def body(job, I, c):
        cls, names, req = classes()
        w, system, a = a_writer(c)
        fields = list(req[names[ptype]])
        miss = c.choose(len(fields) + 2)
        missing = set() if miss == 0 else set(fields) if miss == 1 else {fields[miss - 2]}
        vals, n = {}, {}
        for f in fields:
            n[f] = c.int("n_" + f)
            c.assume(n[f] >= 0)
            if f in missing:
                vals[f] = None
            else:
                two = f in ("coordinates", "velocities")
                d = c.int("columns_" + f)
                vals[f] = a_field(c, DIMS[f], a, shape=(n[f], d) if two else (n[f],), name=f)
        ds = a_dataset(ptype, cls, names, w, vals)
        c.oblige(compare("==", I.call(I.getattr(ds, "check_empty"), [], {}), len(missing) == len(fields)), "empty means that no field was given")
        if len(missing) == len(fields):
            return
        given = [f for f in fields if f not in missing]
        complete = not (missing - {"particle_ids"})
        ok = complete
        if complete:
            ok = land(*[compare("==", n[given[0]], n[f]) for f in given[1:]],
                      compare("==", vals["coordinates"].attrs["shape"][1], vals["velocities"].attrs["shape"][1]))
        try:
            r = I.call(I.getattr(ds, "check_consistent"), [], {})
        except (AttributeError, AssertionError, ValueError):
            c.oblige(lnot(ok), "complete fields of one length are accepted")
            return
        c.oblige(land(ok, r), "missing fields, or fields of different lengths, are rejected")
        if complete:
            c.oblige(compare("==", ds.attrs["n_part"], n[given[0]]), "the number of particles is the length of the fields")
        c.oblige(compare("==", ds.attrs["requires_particle_ids_before_write"], "particle_ids" in missing), "ids are made up exactly when there are none")
    return job.run(body)


def ids_job():
    """_generate_ids: consecutive over all types written."""
    job = Job("_generate_ids", budget_s=60)

    def body(job, I, c):
        sw = mod("swiftsimio.objects")
        cls, names, req = classes()
        w, system, a = a_writer(c)
        allnames = list(names.values())
        k = c.choose(len(allnames) + 1)
        use = allnames[:k] if c.choose(2) else allnames[::-1][:k]
        got = {}
        n = {}
        for t in use:
            n[t] = c.int("n_" + t)
            c.assume(n[t] >= 0)
            d = SymObj(Rec, {"n_part": n[t], "_particle_ids": None}, name=t)
            d.attrs[("setattr", "particle_ids")] = model(lambda o, nm, v, t=t: got.setdefault(t, []).append(v))
            w.attrs[t] = d

        def make(value=None, *args, **k):
            return SymObj(sw.cosmo_array, {"value": value, "unit": k.get("units", args[0] if args else None), "kw": k}, name="made")
        I.class_models[sw.cosmo_array] = make
        I.call(I.getattr(w, "_generate_ids"), [list(use)], {})
        c.oblige(set(got) == set(use) and all(len(v) == 1 for v in got.values()), "every type written gets its ids")
        before = 1
        for t in use:
            x = got[t][0]
            v = x.attrs["value"] if isinstance(x, SymObj) and "value" in x.attrs else x
            q = c.int("at")
            c.oblige(compare("==", v.shape[0], n[t]), f"an id for every particle of {t}")
            c.oblige(z3.Implies(as_bool(land(q >= 0, q < n[t])), as_bool(compare("==", v.get(q), before + q))), f"ids go on where those of the type before end ({t})")
            if isinstance(x, SymObj) and "kw" in x.attrs:
                c.oblige(x.attrs["unit"] == unyt.dimensionless and x.attrs["kw"].get("scale_factor") is a, "ids have no unit and the scale factor of the writer")
            before = before + n[t]
    return job.run(body)


def header_job():
    """_write_metadata: the header of the file."""
    job = Job("_write_metadata", budget_s=60)

    def body(job, I, c):
        cls, names, req = classes()
        box, dim = SymObj(Rec, {}, name="boxsize"), c.int("dimension")
        extra = [None, {"Extra": 7}][c.choose(2)]
        w, system, a = a_writer(c, boxsize=box, dimension=dim, extra_header=extra)
        allnames = list(names.values())
        pick = c.choose(3)
        use = [allnames[:2], [allnames[0], allnames[4]], list(allnames)][pick]
        n, m = {}, {}
        for t in allnames:
            n[t] = c.int("n_" + t)
            c.assume(n[t] >= (1 if pick == 2 else 0))
            m[t] = fresh_array("masses_" + t, (n[t],), "r")
            w.attrs[t] = SymObj(Rec, {"n_part": n[t], "masses": m[t]}, name=t)
        T = Tree(c, I)
        f = T.file()
        I.call(I.getattr(w, "_write_metadata"), [f, list(use)], {})
        h = f.attrs["find"]("/Header")
        c.oblige(h is not None, "there is a header")
        h = h.attrs["attrs"].attrs["d"]
        num = list(h["NumPart_ThisFile"])
        tot = list(h["NumPart_Total"])
        c.oblige(len(num) >= 7 and len(tot) == len(num), "a number for every type")
        for k, t in names.items():
            i = int(k[len("PartType"):])
            want = n[t] if t in use else 0
            c.oblige(compare("==", num[i], want), f"the number of {t} is that written")
            c.oblige(compare("==", tot[i], want), f"the total of {t} is that written")
            mt = list(h["MassTable"])[i]
            if t in use:
                c.oblige(z3.Implies(as_bool(n[t] > 0), as_bool(compare("==", mt, m[t].get(0)))), f"the mass of {t} is that written")
        c.oblige(h["BoxSize"] is box, "the box is that of the writer")
        sf = h["Scale-factor"]
        c.oblige(compare("==", sf[0] if isinstance(sf, (list, tuple)) else sf.get(0), a), "the scale factor is that of the writer")
        d = h["Dimension"]
        c.oblige(compare("==", d[0] if isinstance(d, (list, tuple, np.ndarray)) else d.get(0), dim), "the dimension is that of the writer")
        c.oblige(compare("==", h["NumFilesPerSnapshot"], 1), "the snapshot is one file")
        if extra:
            c.oblige(h.get("Extra") == 7, "extra entries are written")
    return job.run(body)


def attributes_job(ptype):
    """get_attributes, write_particle_group, write_particle_group_metadata: data and attributes of the fields of a type."""
    job = Job(f"fields written ({ptype})", budget_s=60)

    def body(job, I, c):
        M, sw = mod(W), mod("swiftsimio.objects")
        cls, names, req = classes()
        w, system, a = a_writer(c)
        fields = list(req[names[ptype]])
        vals = {f: a_field(c, DIMS[f], a, name=f) for f in fields}
        ds = a_dataset(ptype, cls, names, w, vals)
        fv = vars(M).get("get_dimensions")
        if fv is not None:      # real sympy expressions: run as it is, for the dimensions of all required fields
            I.models[fv] = fv
        T = Tree(c, I)
        f = T.file()
        compress = bool(c.choose(2))
        I.call(I.getattr(ds, "write_particle_group"), [f], {"compress": compress})
        attrs = I.call(I.getattr(ds, "get_attributes"), [], {})
        I.call(I.getattr(ds, "write_particle_group_metadata"), [f, attrs], {})
        data, links = paths(f)
        c.oblige(set(data) == {f"/{ptype}/{HANDLES[k]}" for k in fields}, "every field is written under its name, and nothing else")
        one = lambda x: x[0] if isinstance(x, (list, tuple, np.ndarray)) else x.get(0) if isinstance(x, SArr) else x
        for k in fields:
            d = data.get(f"/{ptype}/{HANDLES[k]}")
            if d is None:
                continue
            c.oblige(d.attrs["data"] is vals[k], f"the values of {k} are those given")
            at = d.attrs["attrs"].attrs["d"]
            pw = DIMS[k].as_powers_dict()
            for s, sym in (("L", unyt.dimensions.length), ("M", unyt.dimensions.mass), ("t", unyt.dimensions.time), ("T", unyt.dimensions.temperature), ("I", unyt.dimensions.current_mks)):
                c.oblige(compare("==", one(at[f"U_{s} exponent"]), float(pw.get(sym, 0))), f"the exponent of {s} of {k}")
            c.oblige(compare("==", one(at["a-scale exponent"]), vals[k].p), f"the scale-factor exponent of {k} is that given")
            c.oblige(compare("==", one(at["h-scale exponent"]), 0), f"{k} has no h")
            c.oblige(compare("==", one(at["Conversion factor to CGS (not including cosmological corrections)"]), vals[k].u), f"the conversion factor of {k} is that of its unit")
            c.oblige(compare("==", one(at["Conversion factor to physical CGS (including cosmological corrections)"]), vals[k].u * vals[k].fac), f"the physical conversion factor of {k}")
    return job.run(body)


def units_job():
    job = Job("_write_units", budget_s=60)

    def body(job, I, c):
        D = unyt.dimensions
        w, system, a = a_writer(c)
        cgs = unyt.unit_systems.cgs_unit_system.base_units
        base, fac = {}, {}
        for d in (D.mass, D.length, D.time, D.temperature, D.current_mks, D.angle):
            base[d] = SymObj(Rec, {}, name=f"unit of {d}")
            fac[d] = c.real(f"factor_{d}")
        system.attrs["base_units"] = base

        def unit(x, *r, **k):
            for d, b in base.items():
                if x is b:
                    def conv(other, *r, d=d):
                        c.oblige(getattr(other, "of", None) is d, f"the unit of {d} is converted to that of cgs", kind="pre")
                        return (fac[d], None)
                    return SymObj(Rec, {"get_conversion_factor": model(conv)}, name="unit")
            for d in base:
                if x is cgs.get(d):
                    o = SymObj(Rec, {}, name="cgs unit")
                    o.__dict__["of"] = d
                    return o
            raise Unsupported("unit")
        I.class_models[unyt.unit_object.Unit] = unit
        T = Tree(c, I)
        f = T.file()
        I.call(I.getattr(w, "_write_units"), [f], {})
        h = f.attrs["find"]("/Units")
        c.oblige(h is not None, "there is a group of units")
        h = h.attrs["attrs"].attrs["d"]
        one = lambda x: x[0] if isinstance(x, (list, tuple, np.ndarray)) else x.get(0) if isinstance(x, SArr) else x
        for n, d in (("mass in cgs (U_M)", D.mass), ("length in cgs (U_L)", D.length), ("time in cgs (U_t)", D.time), ("temperature in cgs (U_T)", D.temperature)):
            c.oblige(compare("==", one(h["Unit " + n]), fac[d]), f"unit {n} is that of the unit system")
        c.oblige(compare("==", one(h["Unit current in cgs (U_I)"]), 1.0), "the unit of current is one")
    return job.run(body)


def write_job():
    """write: nothing is written unless everything is consistent; then everything is."""
    job = Job("write", budget_s=90)

    class Bad(AttributeError):
        pass

    def body(job, I, c):
        cls, names, req = classes()
        w, system, a = a_writer(c, compress=c.bool("compress"))
        log, opened = [], []
        types = list(names.values())
        empty, bad, needs, ids = {}, {}, {}, {}
        focus = [types[i] for i in (0, 1, 4)]
        for t in types:
            empty[t] = bool(c.choose(2)) if t in focus else True
            bad[t] = bool(c.choose(2)) if not empty[t] else False
            needs[t] = bool(c.choose(2)) if not (empty[t] or bad[t]) else False
            ids[t] = SymObj(Rec, {}, name="ids of " + t)

            def consistent(t=t):
                if bad[t]:
                    raise Bad(t)
                d.attrs["requires_particle_ids_before_write"] = needs[t]
                return True
            d = SymObj(Rec, {"check_empty": model(lambda t=t: empty[t]), "particle_ids": ids[t], "requires_particle_ids_before_write": needs[t],
                             "write_particle_group": model(lambda f, compress=None, t=t: log.append(("data", t, f, compress))),
                             "get_attributes": model(lambda t=t: ("attributes", t)),
                             "write_particle_group_metadata": model(lambda f, at, t=t: log.append(("attrs", t, f, at)))}, name=t)

            def consistent(t=t, d=d):
                if bad[t]:
                    raise Bad(t)
                return True
            d.attrs["check_consistent"] = model(consistent)
            w.attrs[t] = d
        use = [t for t in types if not empty[t]]
        if not use:
            from pyvc.values import PathEnd
            raise PathEnd()
        for nm in ("_write_metadata", "_write_units", "_generate_ids"):
            if nm not in vars(mod(W).SWIFTSnapshotWriter):
                raise CannotAttach(nm)
        w.attrs["_write_metadata"] = model(lambda f, names: log.append(("header", f, list(names))))
        w.attrs["_write_units"] = model(lambda f: log.append(("units", f)))
        w.attrs["_generate_ids"] = model(lambda names: log.append(("ids", list(names))))
        job.assumed.add("contract:parts of the writer (proved one by one)")
        distinct = c.bool("all ids differ")

        def concat(xs, *r, **k):
            c.oblige(len(xs) == len(use) and all(x is ids[t] for x, t in zip(xs, use)), "the ids of all types are compared", kind="pre")
            return SymObj(Rec, {"size": n}, name="all ids")
        n, u = c.int("ids"), c.int("distinct")
        c.assume(land(n >= 0, u >= 0, u <= n, SV(as_bool(compare("==", n, u)) == as_bool(distinct))))
        I.models[np.concatenate] = concat
        I.models[np.unique] = lambda x, **k: SymObj(Rec, {"size": u}, name="unique")
        T = Tree(c, I)

        def opener(name=None, mode="r", *r, **k):
            f = T.file()
            opened.append((name, mode, f))
            return f
        I.class_models[h5py.File] = opener
        try:
            I.call(I.getattr(w, "write"), ["/data/out.hdf5"], {})
        except Bad:
            c.oblige(any(bad.values()), "consistent types are accepted")
            c.oblige(not opened, "no file is produced for inconsistent types")
            return
        except ValueError:
            c.oblige(not opened, "no file is produced for repeated ids")
            c.oblige(land(not any(needs.values()), lnot(distinct)), "distinct ids are accepted")
            return
        c.oblige(not any(bad.values()), "an inconsistent type is rejected")
        gen = [x for x in log if x[0] == "ids"]
        c.oblige(any(needs.values()) == bool(gen), "ids are generated exactly when some type has none")
        c.oblige(True if gen else distinct, "repeated ids are rejected")
        c.oblige(all(x[1] == use for x in gen), "ids are generated for all types written")
        c.oblige(len(opened) == 1 and opened[0][0] == "/data/out.hdf5" and opened[0][1] in ("w", "w-", "x"), "one new file is written")
        f = opened[0][2]
        c.oblige([x[2] for x in log if x[0] == "header" and x[1] is f] == [use], "the header describes the types written")
        c.oblige(len([x for x in log if x[0] == "units" and x[1] is f]) == 1, "the units are written")
        c.oblige([x[1] for x in log if x[0] == "data" and x[2] is f] == use, "the data of every type are written")
        c.oblige([(x[1], x[3]) for x in log if x[0] == "attrs" and x[2] is f] == [(t, ("attributes", t)) for t in use], "the attributes of every type are written")
        if gen:
            order = [x[0] for x in log]
            c.oblige(order.index("ids") < order.index("data"), "ids are generated before they are written")
    return job.run(body)


def ctor_job():
    """SWIFTSnapshotWriter(): the box."""
    job = Job("SWIFTSnapshotWriter.__init__", budget_s=60)

    def body(job, I, c):
        M = mod(W)
        log = []
        dim = [1, 2, 3][c.choose(3)]
        n = [1, 2, 3, None][c.choose(4)]
        com = [True, False, None, "missing"][c.choose(4)]
        mk_ = lambda nm: SymObj(Rec, {"convert_to_base": model(lambda s: log.append((nm, "base", s))), "convert_to_comoving": model(lambda: log.append((nm, "comoving"))),
                                      **({"comoving": com} if com != "missing" else {})}, name=nm)
        box, copy = mk_("box"), mk_("copy")

        def length():
            if n is None:
                raise TypeError("len() of unsized object")
            return n
        box.attrs[("special", "__len__")] = model(length)
        copy.attrs[("special", "__len__")] = model(length)
        copies = []

        def cp(x, **k):
            c.oblige(x is box and k.get("subok") is True, "the box is copied with its unit and frame", kind="pre")
            copies.append(copy)
            return copy
        I.models[np.copy] = cp
        system = SymObj(unyt.UnitSystem, {}, name="unit_system")
        if "create_particle_datasets" not in vars(M.SWIFTSnapshotWriter):
            raise CannotAttach("create_particle_datasets")
        a = c.real("a")
        me = SymObj(M.SWIFTSnapshotWriter, {"create_particle_datasets": model(lambda: log.append(("datasets", me.attrs.get("unit_system"))))}, name="writer")
        try:
            I.call(I.getattr(me, "__init__"), [], dict(unit_system=system, boxsize=box, dimension=dim, scale_factor=a))
        except ValueError:
            c.oblige(n != dim, "a box with a length per dimension is accepted")
            return
        c.oblige(n == dim, "a box with another number of lengths is rejected")
        b = me.attrs["boxsize"]
        c.oblige(b is copy and not any(x[0] == "box" for x in log), "the box given is not changed")
        c.oblige(("copy", "base", system) in log, "the box is kept in the units of the writer")
        c.oblige((("copy", "comoving") in log) if com is False else True, "the box is kept comoving")
        c.oblige(compare("==", me.attrs["scale_factor"], a) and me.attrs["unit_system"] is system and me.attrs["dimension"] == dim, "the parameters are kept")
        c.oblige(("datasets", system) in log, "every type gets its dataset, in the units of the writer")
    return job.run(body)


PTYPES = [f"PartType{i}" for i in range(8)]
