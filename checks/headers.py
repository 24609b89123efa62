"""Contracts of the metadata classes (C22): what the header says is what the metadata say."""
import importlib
import sys

import numpy as np
import z3

from checks import handles as H
from checks.handles import Rec, mod, model
from checks.reading import bound
from pyvc.arrays import SArr, fresh_array
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, is_sym, kind, land, lnot, lor, mk, term

O = "swiftsimio.metadata.objects"
PARTS = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos"]
KEYS = ["Time", "Dimension", "Redshift", "Scale-factor", "BoxSize", "NumPart_ThisFile", "NumGroup_ThisFile", "NumSubhalos_ThisFile", "CanHaveTypes",
        "NumFilesPerSnapshot", "OutputType", "MassTable", "InitialMassTable", "RunName", "SelectOutput", "System", "SnapshotDate"]


def header_job():
    job = Job("SWIFTMetadata.postprocess_header", budget_s=150)

    def body(job, I, c):
        M = mod(O)
        missing = [None] + [k for k in KEYS if k != "NumPart_ThisFile"]      # no valid file is without the particle numbers
        missing = missing[c.choose(len(missing))]
        ntypes = [7, 6, 8][c.choose(3)] if missing is None else 7
        scalar_box = c.choose(2) if missing is None else 0
        as_bytes = c.choose(2) if missing is None else 1
        t, z, a, dim = (c.real(x) for x in ("Time", "Redshift", "ScaleFactor", "Dimension"))
        num = [c.int(f"n_{i}") for i in range(ntypes)]
        box = c.real("box") if scalar_box else fresh_array("box", (3,), "r")
        mt = [c.real(f"m_{i}") for i in range(ntypes)]
        s = lambda x: x.encode() if as_bytes else x
        hd = {"Time": [t], "Dimension": [dim], "Redshift": [z], "Scale-factor": [a], "BoxSize": box, "NumPart_ThisFile": num,
              "NumGroup_ThisFile": SymObj(Rec, {}, name="groups"), "NumSubhalos_ThisFile": [c.int("subhalos")], "CanHaveTypes": SymObj(Rec, {}, name="has_type"),
              "NumFilesPerSnapshot": SymObj(Rec, {}, name="files"), "OutputType": s("FullVolume"), "MassTable": list(mt), "InitialMassTable": list(mt),
              "RunName": s("a run"), "SelectOutput": s("Default"), "System": s("computer"), "SnapshotDate": s("2020")}
        if missing:
            hd.pop(missing)
        units = SymObj(Rec, {n: SymObj(Rec, {}, name=n) for n in ("mass", "length", "time", "current", "temperature")}, name="units")
        made = []

        def maker(cls):
            def f(value=None, *args, **k):
                o = SymObj(cls, {"value": value, "unit": k.get("units", args[0] if args else None), "kw": k}, name=cls.__name__)
                o.attrs["convert_to_units"] = model(lambda u: made.append(("convert", o, u)))
                made.append(("made", o))
                return o
            return f
        for cls in (M.cosmo_array, M.cosmo_quantity, M.unyt.unyt_quantity, M.unyt.unyt_array):
            I.class_models[cls] = maker(cls)
        job.assumed.add("contract:constructors of unyt and cosmo arrays hold the value, unit and frame they are given; convert_to_units keeps the quantity")
        I.models[M._iterable] = lambda x: isinstance(x, (SArr, list, tuple))
        factors = []

        def create(I, fv, args, kw):
            job.assumed.add("contract:" + fv.qual + " (C06)")
            args = args[1:] if args and isinstance(args[0], type) else args
            o = SymObj(Rec, {"of": bound(lambda scale_factor, exponent: 0, args, kw)}, name="factor")
            factors.append(o)
            return o
        cr = mod("swiftsimio.objects").cosmo_factor.create
        job.contracts[funcval(getattr(cr, "__func__", cr)).qual] = create
        f = SymObj(Rec, {}, name="file")

        def item(k):
            raise KeyError(k)
        f.attrs[("special", "__getitem__")] = model(item)
        f.attrs[("special", "__bool__")] = model(lambda: True)
        me = SymObj(M.SWIFTSnapshotMetadata, {"header": hd, "units": units, "_handle": f, "handle_manager": False, "hydro_scheme": None}, name="metadata")
        I.call(I.getattr(me, "postprocess_header"), [], {})

        def attr(n):
            return me.attrs.get(n, "missing")

        def is_(x, want):
            if isinstance(want, (SymObj, list, SArr)) or isinstance(x, (SymObj, list, SArr)):
                return x is want
            if isinstance(x, str) or isinstance(want, str):
                return isinstance(x, str) and isinstance(want, str) and x == want
            return compare("==", x, want) if x is not None else False
        A = a if missing != "Scale-factor" else 1.0
        c.oblige(is_(attr("scale_factor"), A), "the scale factor is the stored one (1 without one)")
        c.oblige(is_(attr("a"), A), "a is the scale factor")
        for n in ("redshift", "z"):
            if missing != "Redshift":
                c.oblige(is_(attr(n), z), f"{n} is the stored redshift")
        for n in ("time", "t"):
            if missing != "Time":
                x = attr(n)
                c.oblige(isinstance(x, SymObj) and "value" in x.attrs and x.attrs["unit"] is units.attrs["time"], f"{n} is in the time unit of the snapshot")
                if isinstance(x, SymObj) and "value" in x.attrs:
                    c.oblige(is_(x.attrs["value"], t), f"{n} is the stored time")
        if missing != "BoxSize":
            x = attr("boxsize")
            ok = isinstance(x, SymObj) and x.cls in (M.cosmo_array, M.cosmo_quantity)
            c.oblige(ok, "the box size is cosmology-aware")
            if ok:
                c.oblige(x.attrs["value"] is box if not scalar_box else is_(x.attrs["value"], box), "the box size is the stored one")
                c.oblige(x.attrs["unit"] is units.attrs["length"], "the box size is in the length unit of the snapshot")
                kw = x.attrs["kw"]
                c.oblige(kw.get("comoving") is True, "the box size is comoving")
                cf = kw.get("cosmo_factor")
                c.oblige(isinstance(cf, SymObj) and cf in factors and cf.attrs["of"]["exponent"] == 1, "the box size scales with the scale factor")
                if isinstance(cf, SymObj) and cf in factors:
                    c.oblige(is_(cf.attrs["of"]["scale_factor"], A), "at the scale factor of the snapshot")
                c.oblige(all(u is units.attrs["length"] for k_, o, *u_ in made if k_ == "convert" and o is x for u in u_), "the unit of the box size stays the length unit")
        c.oblige(attr("num_part") is num, "the particle numbers are those stored")
        for i, p in enumerate(PARTS):
            c.oblige(is_(attr("n_" + p), num[i] if i < ntypes else 0), f"n_{p} is the stored number (0 for a type the file does not know)")
        for k, n in (("NumGroup_ThisFile", "num_group"), ("CanHaveTypes", "has_type"), ("NumFilesPerSnapshot", "num_files_per_snapshot"), ("NumSubhalos_ThisFile", "num_subhalo")):
            if missing != k:
                c.oblige(attr(n) is hd[k], f"{n} is the stored {k}")
            else:
                c.oblige(n not in me.attrs, f"no {n} without {k}")
        for k, n in (("RunName", "run_name"), ("SelectOutput", "select_output"), ("OutputType", "output_type"), ("System", "system_name")):
            want = "" if missing == k else hd[k].decode() if as_bytes else hd[k]
            c.oblige(attr(n) == want, f"{n} is the stored text")
        for k, n in (("MassTable", "mass_table"), ("InitialMassTable", "initial_mass_table")):
            x = attr(n)
            c.oblige(isinstance(x, SymObj), f"{n} is there")
            for i, p in enumerate(PARTS):
                q = x.attrs.get(p, "missing") if isinstance(x, SymObj) else None
                if i >= ntypes and missing != k:
                    c.oblige(q is None, f"no mass in {n} for a type the file does not know")
                else:
                    ok = isinstance(q, SymObj) and q.attrs.get("unit") is units.attrs["mass"]
                    c.oblige(ok, f"masses in {n} are in the mass unit of the snapshot")
                    if ok:
                        c.oblige(is_(q.attrs["value"], 0 if missing == k else mt[i]), f"{n}.{p} is the stored mass")
    return job.run(body)


def groups_job():
    """present_groups of snapshots: exactly the types the file declares."""
    job = Job("SWIFTSnapshotMetadata.present_groups", budget_s=120)
    job.max_paths = 4000

    def body(job, I, c):
        M = mod(O)
        n = (3, 5)[c.choose(2)]
        declared, counts = [c.int(f"can_have_{i}") for i in range(n)], [c.int(f"n_{i}") for i in range(n)]
        use = c.choose(2)
        for x in counts + declared:
            c.assume(x >= 0)
        src = declared if use else counts
        me = SymObj(M.SWIFTSnapshotMetadata, {"num_part": list(counts)}, name="metadata")
        if use:
            me.attrs["has_type"] = list(declared)
        present = [bool(compare("!=", x, 0)) for x in src]      # splits the path

        def where(cond, *ab):
            if ab or not isinstance(cond, SArr) or is_sym(cond.shape[0]):
                raise Unsupported("where")
            return (np.array([i for i in range(int(cond.shape[0])) if I.truth(cond.get(i))], dtype=int),)
        I.models[np.where] = where
        I.models[np.flatnonzero] = lambda cond: where(cond)[0]
        I.models[np.nonzero] = where
        g = I.getattr(me, "present_groups")
        want = [f"PartType{i}" for i in range(n) if present[i]]
        c.oblige(list(g) == want, "a particle group is present exactly when the file declares particles of that type")
        names = I.getattr(me, "present_group_names")
        c.oblige(list(names) == [PARTS[i] for i in range(n) if present[i]], "groups have the names of their types, in the same order")
    return job.run(body)


FIELD_KEYS = [["Coordinates", "Masses", "ParticleIDs"], ["XrayLuminosities", "A_b", "Ab2", "AB3c"], [], ["SubGroup", "Velocities"]]


def field_names_job():
    job = Job("SWIFTGroupMetadata.load_field_names, load_group_attributes", budget_s=60)

    def body(job, I, c):
        M = mod(O)
        job.used_bound = True       # lists of names of four shapes; the conversion of one name is a function of that name
        keys = FIELD_KEYS[c.choose(len(FIELD_KEYS))]
        conv = {}

        def convert(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            return conv.setdefault(a[0], f"name of {a[0]}")
        job.contracts[funcval(M._convert_snake_to_camel).qual] = convert
        nested = "PartType0/SubGroup"
        g = SymObj(Rec, {"keys": model(lambda: list(keys)), "attrs": {k: 0 for k in keys}}, name="group")

        def item(k):
            c.oblige(k == "PartType0", "the fields of this group are listed", kind="pre")
            return g
        f = SymObj(Rec, {}, name="file")
        f.attrs[("special", "__getitem__")] = model(item)
        f.attrs[("special", "__bool__")] = model(lambda: True)
        md = SymObj(Rec, {"present_groups": ["PartType0", nested]}, name="metadata")
        me = SymObj(M.SWIFTGroupMetadata, {"_handle": f, "handle_manager": False, "group": "PartType0", "metadata": md}, name="group_metadata")
        I.call(I.getattr(me, "load_field_names"), [], {})
        fields = [k for k in keys if "PartType0/" + k != nested]
        c.oblige(list(me.attrs["field_paths"]) == ["PartType0/" + k for k in fields], "every field of the group is listed once (groups in it are no fields)")
        c.oblige(list(me.attrs["field_names"]) == [conv.get(k) for k in fields], "a field has the name made of its own name")
        I.call(I.getattr(me, "load_group_attributes"), [], {})
        c.oblige(me.attrs["group_attributes"] == {f"name of {k}": k for k in keys}, "a group attribute is reachable under the name made of its own name")
    return job.run(body)


def tables_job():
    """Name tables: injective, so that no two groups share a name."""
    job = Job("name tables", budget_s=30)

    def body(job, I, c):
        mod(O)
        pt = mod("swiftsimio.metadata.particle.particle_types")
        st = mod("swiftsimio.metadata.soap.soap_types")
        names = dict(pt.particle_name_underscores)
        c.oblige([names.get(f"PartType{i}") for i in range(7)] == PARTS, "particle types have the names of SWIFT's types")
        c.oblige(len(set(names.values())) == len(names), "no two particle types share a name")
        seen = {}
        for g, want in (("BoundSubhalo", "bound_subhalo"), ("InputHalos", "input_halos"), ("InputHalos/HBTplus", "input_halos_hbtplus"), ("InclusiveSphere/100kpc", "inclusive_sphere_100kpc"),
                        ("ExclusiveSphere/100kpc", "exclusive_sphere_100kpc"), ("SO/200_crit", "spherical_overdensity_200_crit"), ("SO/200_mean", "spherical_overdensity_200_mean"),
                        ("SO/BN98", "spherical_overdensity_bn98"), ("SOAP", "soap"), ("ProjectedAperture/10kpc/projx", "projected_aperture_10kpc_projx"),
                        ("ProjectedAperture/10kpc/projy", "projected_aperture_10kpc_projy")):
            n = I.call(funcval(st.get_soap_name_underscore), [g], {})
            c.oblige(n == want, f"the name of {g}")
            seen.setdefault(n, []).append(g)
        c.oblige(all(len(v) == 1 for v in seen.values()), "no two groups of a catalogue share a name")
        me = SymObj(mod(O).SWIFTSOAPMetadata, {"subhalo_types": ["SO/200_crit", "SOAP"]}, name="metadata")
        c.oblige(list(I.getattr(me, "present_group_names")) == ["spherical_overdensity_200_crit", "soap"], "groups of a catalogue have their names, in order")
        n = c.int("subhalos")
        me.attrs["num_subhalo"] = [n]
        I.call(I.getattr(me, "unpack_subhalo_number"), [], {})
        c.oblige(compare("==", me.attrs["n_subhalos"], n), "the number of subhalos is the stored one")
    return job.run(body)


def canonical(s):
    return s.replace("_", "").lower()


def convert_job(L=6):
    """_convert_snake_to_camel on every name of at most L characters of each class (bounded): the name differs from the stored
    one in capitalisation and underscores only, so names that differ in more stay distinct; and it is a python name."""
    job = Job(f"_convert_snake_to_camel (names of up to {L} characters)", budget_s=120)

    def body(job, I, c):
        import itertools
        import re
        job.used_bound = True
        f = mod(O)._convert_snake_to_camel
        bad = None
        for n in range(1, L + 1):
            for t in itertools.product("aB1_", repeat=n):
                s = "".join(t)
                r = f(s)
                if canonical(r) != canonical(s) or not re.fullmatch("[a-z0-9_]+", r) or re.search("[a-z0-9](?=[A-Z])", s) and "_" not in r:
                    bad = bad or (s, r)
        c.oblige(bad is None, f"names keep their letters and digits{'' if bad is None else f' ({bad[0]} becomes {bad[1]})'}")
    return job.run(body)
