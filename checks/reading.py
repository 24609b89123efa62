"""Contracts of what reads fields lazily (C10, and the file handling of C11): the property functions generated for a field,
and the readers of a field's attributes."""
import inspect

import h5py
import numpy as np
import z3

from checks import handles as H
from checks.handles import Boom, Files, Rec, mod, model
from pyvc.arrays import SArr, fresh_array, getitem
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, is_sym, kind, land, lnot, mk, term

R = "swiftsimio.reader"
LOADERS = ("_load_field_units", "_load_field_cosmo_factor", "_load_field_description", "_load_field_compression", "_load_field_physical",
           "_load_field_valid_transform")


def bound(fn, a, k):
    """The arguments of a call by name."""
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def getter_job(ndim, masked, column):
    """getter() of one field: ndim of the dataset, with or without a mask, a named column or the whole field."""
    job = Job(f"_generate_getter ({ndim}-D, {'masked' if masked else 'unmasked'}{', named column' if column else ''})", budget_s=90)

    def body(job, I, c):
        M = mod(R)
        job.contracts.clear()
        HP = H.provider()
        files = Files(c, I)
        n, w, col = c.int("rows"), c.int("columns"), c.int("column")
        c.assume(land(n >= 0, w >= 1, col >= 0, col < w))
        data = fresh_array("data", (n, w) if ndim == 2 else (n,), "r")
        data.frozen = True
        field = "PartType0/SomeField"
        present = c.choose(2)
        attrs, dtype = SymObj(Rec, {}, name="attributes of the field"), SymObj(Rec, {}, name="dtype of the field")
        ds = SymObj(h5py.Dataset, {"attrs": attrs, "dtype": dtype, "shape": data.shape, "ndim": ndim, "size": n}, name="dataset")
        reads = []

        def all_of(k):
            reads.append(k)
            return getitem(data, k)
        ds.attrs[("special", "__getitem__")] = model(all_of)
        ds.attrs[("special", "__len__")] = model(lambda: n)

        def content(f):
            def item(k):
                c.oblige(f.is_open, "only an open file is read", kind="pre")
                if k != field or not present:
                    raise KeyError(k)
                return ds
            f.attrs[("special", "__getitem__")] = model(item)
            f.attrs[("special", "__contains__")] = model(lambda k: bool(k == field and present))
        files.content = content
        units, metadata = SymObj(Rec, {}, name="units"), SymObj(Rec, {}, name="metadata")
        metadata.attrs["units"] = units
        tok = {l: SymObj(Rec, {}, name=l) for l in LOADERS}
        tok["_load_field_physical"], tok["_load_field_valid_transform"] = c.bool("physical"), c.bool("convertible")
        missing = c.choose(2) if present else 0
        for l in LOADERS:
            fn = getattr(M, l, None)
            if fn is None:
                raise CannotAttach(l)

            def load(I, fv, a, k, l=l):
                job.assumed.add("contract:" + fv.qual)
                c.oblige(a[0] is attrs, "the attributes of this field are read", kind="pre")
                if l == "_load_field_units":
                    c.oblige(a[1] is units, "the unit system of the snapshot is used", kind="pre")
                if l == "_load_field_cosmo_factor":
                    c.oblige(a[1] is metadata, "the scale factor of the snapshot is used", kind="pre")
                    if missing:
                        raise KeyError("attribute")
                return tok[l]
            job.contracts[funcval(fn).qual] = load
        mask = SymObj(Rec, {}, name="ranges") if masked else None
        size = c.int("selected")
        c.assume(size >= 0)
        row = c.func("selected_row", "i", "i")

        def ranges(I, fv, a, k):
            job.assumed.add("contract:" + fv.qual)
            b = bound(M.read_ranges_from_file, a, k)
            c.oblige(b["handle"] is ds and b["ranges"] is mask, "the rows of this group's mask are read from this field", kind="pre")
            c.oblige(b["output_type"] is dtype, "values keep their type", kind="pre")
            shp, cols = b["output_shape"], b["columns"]
            shp = tuple(shp) if isinstance(shp, (tuple, list)) else (shp,)
            two = ndim == 2 and not column
            c.oblige(len(shp) == (2 if two else 1), "the shape asked for fits the field", kind="pre")
            c.oblige(compare("==", shp[0], size), "room for exactly the selected rows", kind="pre")
            if two:
                c.oblige(compare("==", shp[1], w) if len(shp) == 2 else False, "room for all columns", kind="pre")
            if column:
                c.oblige(compare("==", cols, col) if kind(cols) == "i" else False, "the named column is read", kind="pre")
                return SArr((size,), lambda i: data.get(SV(row(term(i))), col), "r")
            c.oblige(isinstance(cols, slice) and cols == slice(None), "all columns are read", kind="pre")
            return SArr((size, w), lambda i, j: data.get(SV(row(term(i))), j), "r") if two else SArr((size,), lambda i: data.get(SV(row(term(i)))), "r")
        job.contracts[funcval(M.read_ranges_from_file).qual] = ranges
        made = []

        def cosmo(*a, **k):
            o = SymObj(M.cosmo_array, {"values": a[0] if a else k.get("input_array"), "units": a[1] if len(a) > 1 else k.get("units")}, name="field")
            o.attrs.update(k)
            made.append(o)
            return o
        I.class_models[M.cosmo_array] = cosmo
        job.assumed.add("contract:cosmo_array(values, units, …) has these values, units and attributes (C09)")
        cls = vars(M).get("__SWIFTNamedColumnDataset" if column else "__SWIFTGroupDataset")
        if cls is None:
            raise CannotAttach("dataset classes")
        me, s = H.an_object(files, c, cls)
        me.attrs["metadata"] = metadata
        other = SymObj(Rec, {}, name="other field")
        me.attrs["_other"] = other
        cached = c.choose(2)
        old = SymObj(Rec, {}, name="cached") if cached else None
        me.attrs["_temp"] = old
        was_open = {id(f) for f in files.all if f.is_open}
        kw = dict(filename=H.PATH, field=field, mask=mask, mask_size=size if masked else -1)
        if column:
            kw["column_index"] = col
        get = I.call(funcval(M._generate_getter), ["temp"], {k: v for k, v in kw.items() if k in inspect.signature(M._generate_getter).parameters})
        c.oblige(not files.opened and not reads, "nothing is read before the field is asked for")

        def end():
            c.oblige({id(f) for f in files.all if f.is_open} == was_open, "after a read exactly the files open before it are open")
            H.obey(c, me, files, "after a read")
            c.oblige(me.attrs["_other"] is other, "reading a field leaves the others alone")
        try:
            x = I.call(get, [me], {})
        except OSError:
            c.oblige(not cached and not s.endswith("open"), "a field is read through an open handle, or once it has been read, without opening the file")
            c.oblige(me.attrs["_temp"] is old, "a failed read changes nothing")
            end()
            return
        except (RuntimeError, ValueError):
            c.oblige(False, "a field can be read after the handle has been closed")
            return
        end()
        if cached:
            c.oblige(x is old and me.attrs["_temp"] is old, "a field that has been read or set is returned as it is")
            c.oblige(not files.opened and not reads and not made, "a field that has been read is not read again")
            return
        if not present or missing:
            c.oblige(x is None and me.attrs["_temp"] is None, "a field that cannot be found has no value")
            return
        c.oblige(isinstance(x, SymObj) and x in made and me.attrs["_temp"] is x, "the field read is the one kept and returned")
        if not (isinstance(x, SymObj) and x in made):
            return
        v = x.attrs["values"]
        two = ndim == 2 and not column
        i, j = c.int("i"), c.int("j")
        c.oblige(isinstance(v, SArr) and v.ndim == (2 if two else 1), "the field has the dimensions stored")
        if not isinstance(v, SArr) or v.ndim != (2 if two else 1):
            return
        m = size if masked else n
        r = SV(row(term(i))) if masked else i
        c.oblige(compare("==", v.shape[0], m), "the field has all the rows (selected)")
        inr = land(i >= 0, i < m)
        if two:
            c.oblige(compare("==", v.shape[1], w), "the field has all its columns")
            c.oblige(z3.Implies(as_bool(land(inr, j >= 0, j < w)), as_bool(compare("==", v.get(i, j), data.get(r, j)))), "the values are those stored")
        else:
            c.oblige(z3.Implies(as_bool(inr), as_bool(compare("==", v.get(i), data.get(r, col) if column else data.get(r)))), "the values are those stored")
        c.oblige(x.attrs["units"] is tok["_load_field_units"], "the unit is the one stored with the field")
        c.oblige(x.attrs.get("cosmo_factor") is tok["_load_field_cosmo_factor"], "the scale-factor expression is the one stored with the field")
        com = x.attrs.get("comoving")
        c.oblige(compare("==", com, lnot(tok["_load_field_physical"])) if com is not None else False, "comoving exactly when not stored as physical")
        vt = x.attrs.get("valid_transform")
        c.oblige(compare("==", vt, tok["_load_field_valid_transform"]) if vt is not None else False, "the permitted-conversion flag is the one stored")
        c.oblige(x.attrs.get("compression") is tok["_load_field_compression"], "the compression is the one stored")
        n_open, n_read = len(files.opened), len(reads)
        y = I.call(get, [me], {})
        c.oblige(y is x and len(files.opened) == n_open and len(reads) == n_read and len(made) == 1, "the second access gives the same object without reading")
    return job.run(body)


def access_job():
    job = Job("_generate_setter, _generate_deleter", budget_s=30)

    def body(job, I, c):
        M = mod(R)
        v, w, o = (SymObj(Rec, {}, name=x) for x in ("old", "new", "other"))
        me = SymObj(vars(M)["__SWIFTGroupDataset"], {"_temp": [v, None][c.choose(2)], "_other": o, "_temperature": o}, name="group")
        st, dl = I.call(funcval(M._generate_setter), ["temp"], {}), I.call(funcval(M._generate_deleter), ["temp"], {})
        I.call(st, [me, w], {})
        c.oblige(me.attrs["_temp"] is w, "a field set has the value given")
        c.oblige(set(me.attrs) == {"_temp", "_other", "_temperature"} and me.attrs["_other"] is o and me.attrs["_temperature"] is o, "setting a field leaves the others alone")
        I.call(dl, [me], {})
        c.oblige(me.attrs["_temp"] is None, "a field deleted is read again on the next access")
        c.oblige(set(me.attrs) == {"_temp", "_other", "_temperature"} and me.attrs["_other"] is o and me.attrs["_temperature"] is o, "deleting a field leaves the others alone")
    return job.run(body)


def group_attr_job():
    """Attributes of a group (lines of sight)."""
    job = Job("_generate_group_attr_getter", budget_s=60)

    def body(job, I, c):
        M = mod(R)
        files = Files(c, I)
        stored = fresh_array("stored", (c.int("n"),), "r")
        c.assume(stored.shape[0] >= 0)
        gattrs = SymObj(Rec, {}, name="group attributes")
        gattrs.attrs[("special", "__getitem__")] = model(lambda k: {"Xpos": stored}[k])

        def content(f):
            def item(k):
                c.oblige(f.is_open, "only an open file is read", kind="pre")
                return {"LOS_0000": SymObj(h5py.Group, {"attrs": gattrs}, name="group")}[k]
            f.attrs[("special", "__getitem__")] = model(item)
        files.content = content
        t = {k: SymObj(Rec, {}, name=k) for k in ("units", "unit", "factor")}
        com = c.bool("comoving")

        def of(kind_, v):
            def f(name):
                c.oblige(name == "xpos", f"the {kind_} is that of this attribute", kind="pre")
                return v
            return model(f)

        def loader(u):
            c.oblige(u is t["units"], "the unit system of the snapshot is used", kind="pre")
            return t["unit"]
        md = SymObj(Rec, {"units": t["units"], "get_group_attribute_units": of("unit", model(loader)), "get_group_attribute_comoving": of("frame", com),
                          "get_group_attribute_cosmo_factor": of("factor", t["factor"])}, name="metadata")
        made = []

        def cosmo(*a, **k):
            o = SymObj(M.cosmo_array, {"values": a[0], "units": a[1] if len(a) > 1 else k.get("units")}, name="attribute")
            o.attrs.update(k)
            o.attrs["squeeze"] = model(lambda: o)
            made.append(o)
            return o
        I.class_models[M.cosmo_array] = cosmo
        job.assumed.add("contract:cosmo_array.squeeze keeps values, units and frame (C09)")
        I.models[np.atleast_1d] = lambda x: x
        me, s = H.an_object(files, c, vars(M)["__SWIFTGroupDataset"])
        cached = c.choose(2)
        old = SymObj(Rec, {}, name="cached") if cached else None
        me.attrs.update({"metadata": md, "_xpos": old, "_other": t["unit"]})
        was_open = {id(f) for f in files.all if f.is_open}
        get = I.call(funcval(M._generate_group_attr_getter), ["xpos"], dict(group="LOS_0000", attr_name="Xpos"))
        try:
            x = I.call(get, [me], {})
        except OSError:
            c.oblige(not cached and not s.endswith("open") and me.attrs["_xpos"] is None, "only a failure to open the file can keep an attribute from being read")
            x = None
        except (RuntimeError, ValueError):
            c.oblige(False, "an attribute can be read after the handle has been closed")
            return
        c.oblige({id(f) for f in files.all if f.is_open} == was_open, "after a read exactly the files open before it are open")
        H.obey(c, me, files, "after a read")
        c.oblige(me.attrs["_other"] is t["unit"], "reading an attribute leaves the others alone")
        if cached:
            c.oblige(x is old and not files.opened, "an attribute that has been read is returned as it is")
        elif x is not None:
            c.oblige(x in made and me.attrs["_xpos"] is x, "the attribute read is kept and returned")
            c.oblige(x.attrs["values"] is stored, "the values are those stored")
            c.oblige(x.attrs["units"] is t["unit"] and x.attrs.get("cosmo_factor") is t["factor"], "the attribute has its unit and scale-factor expression")
            c.oblige(compare("==", x.attrs.get("comoving"), com), "the attribute is in its frame")
    return job.run(body)


# ------------------------------------------------------------------ the readers of a field's attributes
DIMS = {"I": "current", "L": "length", "M": "mass", "T": "temperature", "t": "time"}


def unit(exps, name="unit"):
    """A product of powers of the five base units, known by its exponents."""
    import unyt
    u = SymObj(unyt.Unit, {"exps": exps}, name=name)

    def of(o):
        if isinstance(o, SymObj) and "exps" in o.attrs:
            return o.attrs["exps"]
        if isinstance(o, unyt.Unit) and o.is_dimensionless and o.base_value == 1:
            return {k: 0 for k in DIMS}
        if isinstance(o, (int, float)) and o == 1:
            return {k: 0 for k in DIMS}
        raise Unsupported("operand of a unit")

    def comb(sign, swap=False):
        return model(lambda o: unit({k: (of(o)[k] if swap else exps[k]) + sign * (exps[k] if swap else of(o)[k]) for k in DIMS}))

    def pw(p):
        if kind(p) not in "ir":
            raise Unsupported("exponent of a unit")
        one = [k for k in DIMS if not (isinstance(exps[k], int) and exps[k] == 0)]
        if any(not (isinstance(exps[k], int) and exps[k] == 1) for k in one):
            raise Unsupported("power of a compound unit")
        return unit({k: p if k in one else 0 for k in DIMS})
    sp = lambda n: ("special", f"__{n}__")
    u.attrs.update({sp("mul"): comb(1), sp("rmul"): comb(1), sp("truediv"): comb(-1), sp("rtruediv"): comb(-1, True), sp("pow"): model(pw)})
    return u


def record(attrs, c):
    """The attributes of a field: a mapping that may lack some of its keys."""
    a = SymObj(Rec, {}, name="attributes")

    def item(k):
        if k not in attrs:
            raise KeyError(k)
        return attrs[k]
    a.attrs[("special", "__getitem__")] = model(item)
    a.attrs[("special", "__contains__")] = model(lambda k: k in attrs)
    a.attrs["get"] = model(lambda k, d=None: attrs.get(k, d))
    return a


def AR():
    return mod("swiftsimio.metadata.field.attr_reader")


def units_job():
    job = Job("load_field_units", budget_s=60)

    def body(job, I, c):
        job.assumed.add("unyt: products, quotients and powers of units multiply and divide what they stand for")
        e = {k: c.real(f"exponent_{k}") for k in DIMS}
        at = record({f"U_{k} exponent": [e[k]] for k in DIMS}, c)
        us = SymObj(Rec, {n: unit({q: int(q == k) for q in DIMS}, n) for k, n in DIMS.items()}, name="units")
        u = I.call(funcval(AR().load_field_units), [at, us], {})
        import unyt
        if isinstance(u, unyt.Unit):
            c.oblige(u.is_dimensionless and u.base_value == 1, "a field without exponents is dimensionless")
            ex = {k: 0 for k in DIMS}
        else:
            c.oblige(isinstance(u, SymObj) and "exps" in u.attrs, "the result is a unit")
            ex = u.attrs["exps"]
        for k in DIMS:
            c.oblige(compare("==", ex[k], e[k]), f"the unit has the stored exponent of {DIMS[k]}")
    return job.run(body)


def attrs_job():
    job = Job("load_field_cosmo_factor, load_field_physical, load_field_valid_transform", budget_s=60)

    def body(job, I, c):
        A = AR()
        have = [c.choose(2) for _ in range(3)]
        p, ph, vt = c.real("exponent"), c.int("physical"), c.int("convertible")
        at = {}
        for h, k, v in zip(have, ("a-scale exponent", "Value stored as physical", "Property can be converted to comoving"), (p, ph, vt)):
            if h:
                at[k] = [v]
        at = record(at, c)
        a = c.real("scale_factor")
        md = SymObj(Rec, {"scale_factor": a}, name="metadata")
        made = []
        tok = SymObj(Rec, {}, name="factor")

        def create(I, fv, args, kw):
            job.assumed.add("contract:" + fv.qual + " (C06)")
            args = args[1:] if args and isinstance(args[0], type) else args
            made.append(bound(lambda scale_factor, exponent: 0, args, kw))
            return tok
        job.contracts[funcval(A.cosmo_factor.create.__func__ if hasattr(A.cosmo_factor.create, "__func__") else A.cosmo_factor.create).qual] = create
        f = I.call(funcval(A.load_field_cosmo_factor), [at, md], {})
        c.oblige(f is tok and len(made) == 1, "the scale-factor expression is a power of the scale factor")
        c.oblige(compare("==", made[0]["scale_factor"], a), "at the scale factor of the snapshot")
        c.oblige(compare("==", made[0]["exponent"], p if have[0] else 0), "with the exponent stored (0 without one)")
        c.oblige(compare("==", I.call(funcval(A.load_field_physical), [at], {}), compare("==", ph, 1) if have[1] else False), "physical exactly when stored as physical")
        c.oblige(compare("==", I.call(funcval(A.load_field_valid_transform), [at], {}), compare("==", vt, 1) if have[2] else True),
                 "conversion is permitted unless stored otherwise")
    return job.run(body)
