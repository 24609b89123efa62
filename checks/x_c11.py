"""C11 at run time: who opens a file closes it, for random sequences of operations."""
import gc
import os
from pathlib import Path

import h5py
import numpy as np
import unyt

from vlib import snap
from vlib.execlib import Skip, case, check, internal


def count():
    return len(h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE))


def open_files(want=0):
    """The number of open files; objects only waiting for the garbage collector do not count."""
    n = count()
    if n != want:
        gc.collect()
        n = count()
    return n


def spelling(rng, env, p):
    """The same file under another name."""
    k = rng.integers(0, 5)
    if k == 0:
        return os.path.relpath(p)
    if k == 1:
        return os.path.join(os.path.dirname(p), ".", os.path.basename(p))
    if k == 2:
        q = env.path("link.h5")
        os.symlink(p, q)
        return q
    if k == 3:
        return Path(p)
    return p


class Boom(Exception):
    pass


@case(quick=60, thorough=2000)
def provider_sequences(rng, env):
    HP = internal("swiftsimio._handle_provider", "HandleProvider", "f", None)
    for a in ("handle", "open_file", "_close_handle_if_manager"):
        if not hasattr(HP, a):
            raise Skip(f"HandleProvider.{a} gone")
    p = env.path("a.h5")
    with h5py.File(p, "w") as f:
        f["x"] = np.arange(3)
    base = open_files()
    external = rng.random() < 0.5
    h = h5py.File(p, "r") if external else None
    q = spelling(rng, env, p)
    prov = HP(q, h)
    owned = False        # a handle opened by the provider and not yet closed
    ext_open = external
    ops = []
    for _ in range(int(rng.integers(1, 9))):
        op = str(rng.choice(["handle", "with", "with_fail", "nested", "close", "close", "extclose"]))
        ops.append(op)
        env.note(external=external, ops=ops)
        if op == "handle":
            if external and not ext_open:
                try:
                    prov.handle
                except RuntimeError:
                    pass
                else:
                    check(False, "an externally managed closed handle was silently reopened")
            else:
                g = prov.handle
                check(bool(g) and g["x"][1] == 1, "the handle is not usable")
                if external:
                    check(g is h, "the handle given was not used")
                else:
                    owned = True
        elif op in ("with", "with_fail", "nested"):
            n0 = count()
            try:
                with prov.open_file() as g:
                    check(bool(g) and g["x"][2] == 2, "open_file gave an unusable handle")
                    if ext_open:
                        check(g is h, "open_file ignored the handle given")
                    if op == "nested":
                        with prov.open_file() as g2:
                            check(g2["x"][0] == 0, "nested open_file")
                        check(bool(g), "an inner open_file closed the outer handle")
                    if op == "with_fail":
                        raise Boom
            except Boom:
                pass
            del g
            check(open_files(n0) == n0, f"open_file changed the number of open files from {n0} to {open_files()}")
        elif op == "close":
            prov._close_handle_if_manager()
            owned = False
        elif op == "extclose" and external:
            h.close()
            ext_open = False
        n = open_files(base + int(owned) + int(ext_open)) - base
        check(n == int(owned) + int(ext_open), f"{n} files open after {ops} (external={external})")
        if external and ext_open:
            check(bool(h), "the caller's handle was closed")
    if external:
        h.close()


def operations(rng, sw, src, env, ds, mk, path):
    ops = {
        "field": lambda: ds.gas.masses,
        "coords": lambda: ds.gas.coordinates,
        "named": lambda: ds.gas.element_mass_fractions.helium,
        "dm": lambda: ds.dark_matter.velocities,
        "units": lambda: ds.get_units(),
        "metadata": lambda: ds.get_metadata(),
        "datasets": lambda: ds.create_datasets(),
        "load": lambda: sw.load(src),
        "mask": lambda: sw.mask(src),
        "validate": lambda: sw.validate_file(src),
        "constrain": lambda: mk.constrain_mask("gas", "temperatures", 10 * mk.units.temperature, 1e4 * mk.units.temperature),
        "spatial": lambda: mk.constrain_spatial([[0.1 * b, 0.4 * b] for b in mk.metadata.boxsize]),
        "masked_load": lambda: sw.load(src, mask=sw.mask(src)).gas.masses,
        "subset": lambda: sw.subset_writer.write_subset(env.path("out.hdf5"), mk),
        "missing": lambda: ds.gas.not_a_field,
        "badmask": lambda: mk.constrain_mask("gas", "not_a_field", 0, 1),
        "delete": lambda: delattr(ds.gas, "masses"),
        "attrs": lambda: (ds.metadata.a, ds.metadata.present_groups, repr(ds.gas), str(ds.metadata)),
    }
    return ops


@case(quick=12, thorough=250)
def library_operations(rng, env):
    import swiftsimio as sw
    import swiftsimio.subset_writer  # noqa
    p = env.path("a.h5")
    snap.build(p, rng, counts={0: 30, 1: 20}, minmax=bool(rng.integers(2)))
    base = open_files()
    given = rng.random() < 0.5
    h = h5py.File(p, "r") if given else None
    src = h if given else p
    try:
        ds = sw.load(src)
    except TypeError:
        if given:
            raise Skip("handles are not accepted")
        raise
    mk = sw.mask(src)
    done = []
    env.note(given=given, ops=done)
    for _ in range(int(rng.integers(3, 12))):
        ops = operations(rng, sw, src, env, ds, mk, p)
        name = str(rng.choice(sorted(ops)))
        if name == "subset" and os.path.exists(env.path("out.hdf5")):
            continue
        done.append(name)
        try:
            ops[name]()
            failed = None
        except Exception as e:
            failed = e
            check(name in ("missing", "badmask", "constrain", "spatial", "subset"), f"{name} failed after {done}: {type(e).__name__}: {e}")
            failed = None
        n = open_files(base + int(given)) - base - int(given)
        check(n == 0, f"{n} extra files open after {done} (handle given: {given})")
        if given:
            check(bool(h), f"the caller's handle was closed by {done}")
            check(h["PartType0/Masses"].shape == (30,), "the caller's handle is unusable")
    if given:
        h.close()
    # using the object later reopens the file
    delattr(ds.gas, "coordinates")
    ds.gas.coordinates
    check(ds.gas.coordinates.shape == (30, 3), "the field could not be read again later")
    check(open_files(base) == base, "the file stays open after a later read")


@case(quick=15, thorough=200)
def failures_release_the_file(rng, env):
    import swiftsimio as sw
    p = env.path("a.h5")
    snap.build(p, rng, counts={0: 10})
    what = str(rng.choice(["Units", "Header", "Cells", "Code", "OutputType", "Cosmology", "PartType0/Masses/attr"]))
    with h5py.File(p, "r+") as f:
        if what == "OutputType":
            f["Header"].attrs["OutputType"] = b"Nonsense"
        elif what.endswith("attr"):
            for k in list(f["PartType0/Masses"].attrs):
                del f["PartType0/Masses"].attrs[k]
        else:
            del f[what]
    base = open_files()
    given = rng.random() < 0.4
    h = h5py.File(p, "r") if given else None
    src = h if given else p
    env.note(removed=what, given=given)
    for fn in (sw.load, sw.mask, sw.validate_file):
        e = None
        try:
            x = fn(src)
            if fn is sw.load:
                x.gas.masses
            del x
        except Exception as ex:  # what matters here is only who is left holding the file
            e = type(ex)
        n = open_files(base + int(given)) - base - int(given)
        check(n == 0, f"{fn.__name__} on a file without {what} ({e}) leaves {n} files open")
        if given:
            check(bool(h), f"{fn.__name__} closed the caller's handle")
    if given:
        h.close()


@case(quick=8, thorough=60)
def owner_classes(rng, env):
    """Every class with a file behind it, constructed from a path and from a handle."""
    mo = ["SWIFTUnits", "SWIFTSnapshotMetadata"]
    p = env.path("a.h5")
    snap.build(p, rng, counts={0: 10, 4: 5})
    base = open_files()
    import swiftsimio.metadata.objects as M
    import swiftsimio.reader as R
    objs = []
    for name in mo + ["SWIFTDataset"]:
        cls = getattr(R if name == "SWIFTDataset" else M, name, None)
        if cls is None:
            continue
        o = cls(p)
        objs.append(o)
        check(open_files(base) == base, f"{name}(path) leaves the file open")
        with h5py.File(p, "r") as h:
            try:
                o2 = cls(spelling(rng, env, p), handle=h) if not os.path.lexists(env.path("link.h5")) else cls(p, handle=h)
            except TypeError:
                continue
            check(bool(h) and open_files(base + 1) == base + 1, f"{name}(handle) closed the caller's handle or opened another")
            objs.append(o2)
    if len(objs) >= 3:
        check(float(objs[2].scale_factor if hasattr(objs[2], "scale_factor") else 0.5) == 0.5, "metadata object unusable")
    env.note(n=len(objs))
