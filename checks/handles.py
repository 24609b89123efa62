"""Contracts of handle-owning objects (C11): who opens a file closes it.

Ghost state: every h5py.File the code opens is a token with an owner ("caller" or "library") and an open flag; opening may
fail. The contracts below quantify over all histories by induction: HandleProvider has a class invariant (Inv) that
__init__ establishes and each operation preserves from *every* state satisfying it, with arbitrary code run inside the block
that `open_file` guards.

Inv(me):  not me.handle_manager  =>  me._handle is the caller's handle (open, or closed by the caller meanwhile)
          me.handle_manager      =>  me._handle is None, a file opened by the library (open or closed), or a handle of the
                                     caller that was closed when it was given
"""
import ast
import importlib
import sys
from pathlib import Path

import h5py

from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import CannotAttach

PATH = "/data/snapshot.hdf5"


class Rec:
    pass


class Boom(Exception):
    """What arbitrary code raises."""


def model(f):
    f.pyvc_model = True
    return f


def mod(name):
    importlib.import_module(name)
    return sys.modules[name]


def provider():
    return mod("swiftsimio._handle_provider").HandleProvider


class Files:
    """The ghost state of all files."""

    def __init__(self, c, I, can_fail=True):
        self.c, self.I, self.all, self.opened, self.can_fail = c, I, [], [], can_fail
        I.class_models[h5py.File] = self.open
        I.class_models[Path] = Path
        self.content = lambda f: None

    def token(self, owner, is_open, path=PATH):
        f = SymObj(h5py.File, {}, name=f"{owner}'s file")
        f.__dict__.update(owner=owner, is_open=is_open, closes=0, path=path)
        f.attrs[("special", "__bool__")] = model(lambda: f.is_open)
        f.attrs["close"] = model(lambda: self.close(f))
        f.attrs[("special", "__enter__")] = model(lambda: f)
        f.attrs[("special", "__exit__")] = model(lambda *a: self.close(f))
        f.attrs[("getattr", "filename")] = model(lambda o: self.filename(f))
        self.content(f)
        self.all.append(f)
        return f

    def filename(self, f):
        if not f.is_open:
            raise ValueError("Not a file or file object (the file is closed)")
        return str(f.path)

    def open(self, name=None, mode="r", *a, **k):
        if self.can_fail and self.c.choose(2):
            raise OSError("cannot open the file")
        if isinstance(name, SymObj):
            raise CannotAttach("opening something that is no path")
        f = self.token("library", True, name)
        f.mode = mode
        self.opened.append(f)
        self.c.oblige(mode == "r", "files are opened for reading only", kind="pre")
        return f

    def close(self, f):
        f.closes += 1
        f.is_open = False
        self.c.oblige(f.owner == "library", "a handle given by the caller is never closed", kind="pre")

    def left_open(self):
        return [f for f in self.all if f.owner == "library" and f.is_open]


def given(files, c, kinds):
    """A handle of the caller's; the object may know its file under another name (a link, a relative path)."""
    k = kinds[c.choose(len(kinds))]
    return None if k is None else files.token("caller", k == "open", PATH if c.choose(2) else "/data/link.hdf5")


def inv(me, files):
    h, m = me.attrs["_handle"], me.attrs["handle_manager"]
    if h is not None and not any(h is f for f in files.all):
        return False
    if m:
        return h is None or h.owner == "library" or not h.is_open
    return h is not None and h.owner == "caller"


STATES = ["none", "own open", "own closed", "given open", "given closed", "given after it was closed"]


def in_state(me, files, s):
    me.attrs["handle_manager"] = s in ("none", "own open", "own closed", "given after it was closed")
    me.attrs["_handle"] = None if s == "none" else files.token("library" if s.startswith("own") else "caller", s.endswith("open"))
    me.attrs["filename"] = Path(PATH)


def an_object(files, c, cls=None):
    me = SymObj(cls or provider(), {}, name="provider")
    s = STATES[c.choose(len(STATES))]
    in_state(me, files, s)
    return me, s


def obey(c, me, files, what):
    if "_handle" not in me.attrs or "handle_manager" not in me.attrs:
        raise CannotAttach("the state of HandleProvider")
    c.oblige(inv(me, files), f"class invariant of HandleProvider {what}")


def names_ok(cls):
    for n in ("handle", "open_file", "_close_handle_if_manager", "__init__"):
        if n not in vars(cls):
            raise CannotAttach(f"HandleProvider.{n} gone")


def init_job():
    job = Job("HandleProvider.__init__", budget_s=30)

    def body(job, I, c):
        names_ok(provider())
        files = Files(c, I)
        h = given(files, c, [None, "open", "closed"])
        p = [PATH, Path(PATH)][c.choose(2)]
        me = SymObj(provider(), {}, name="provider")
        try:
            I.call(funcval(provider().__init__), [me, p] + ([h] if h is not None else []), {})
        except (ValueError, RuntimeError, OSError):
            c.oblige(h is not None and not h.is_open and not files.opened, "an object can be made from a path and an open handle")
            return
        obey(c, me, files, "after construction")
        c.oblige(me.attrs["_handle"] is h, "the handle given is the one used")
        c.oblige(me.attrs["filename"] == Path(PATH), "the name of the file is kept")
        c.oblige(not files.opened, "construction opens nothing")
    return job.run(body)


def handle_job():
    job = Job("HandleProvider.handle", budget_s=30)

    def body(job, I, c):
        names_ok(provider())
        files = Files(c, I)
        me, s = an_object(files, c)
        old = me.attrs["_handle"]
        try:
            h = I.getattr(me, "handle")
        except OSError:
            c.oblige(not s.endswith("open"), "an open handle is used without opening the file again")
            obey(c, me, files, "after the file could not be opened")
            c.oblige(me.attrs["_handle"] is old and not files.left_open(), "a failure to open leaves the object as it was")
            return
        except RuntimeError:
            c.oblige(s == "given closed", f"the handle is available ({s})")
            c.oblige(not files.opened, "nothing is opened when the handle is refused")
            obey(c, me, files, "after a refused handle")
            return
        obey(c, me, files, "after `handle`")
        c.oblige(s != "given closed", "a handle closed by the caller is not silently replaced")
        c.oblige(isinstance(h, SymObj) and h in files.all and h.is_open, "`handle` is an open file")
        if s.endswith("open"):
            c.oblige(h is old and not files.opened, "an open handle is used without opening the file again")
        else:
            c.oblige(len(files.opened) == 1 and h is files.opened[0] and Path(str(h.path)) == Path(PATH), "a missing handle is opened once, from the object's file")
            c.oblige(me.attrs["_handle"] is h, "the handle opened is remembered (so that it can be closed)")
    return job.run(body)


def close_job():
    job = Job("HandleProvider._close_handle_if_manager", budget_s=30)

    def body(job, I, c):
        names_ok(provider())
        files = Files(c, I)
        me, s = an_object(files, c)
        old = me.attrs["_handle"]
        I.call(I.getattr(me, "_close_handle_if_manager"), [], {})
        obey(c, me, files, "after closing")
        c.oblige(not files.left_open(), "a handle opened by the library is closed by its manager")
        c.oblige(not files.opened, "closing opens nothing")
        if s.startswith("given"):
            c.oblige(me.attrs["_handle"] is old and old.closes == 0 and old.is_open == (s == "given open"), "a handle of the caller stays as it is")
    return job.run(body)


ENDS = ["normal", "exception"]


def open_file_job():
    """`with me.open_file() as h: <arbitrary code>`: the code may itself use the object (its state afterwards is any state
    satisfying the invariant that operations of the object can reach), raise, or just end."""
    job = Job("HandleProvider.open_file", budget_s=60)

    def body(job, I, c):
        names_ok(provider())
        files = Files(c, I)
        me, s = an_object(files, c)
        old = me.attrs["_handle"]
        end = ENDS[c.choose(2)]
        inside = ["nothing", "handle", "close"][c.choose(3)]
        ran = []

        def block(h):
            ran.append(h)
            c.oblige(isinstance(h, SymObj) and h in files.all and h.is_open, "the block has an open file")
            if s.endswith("open"):
                c.oblige(h is old and not files.opened, "an open handle is used without opening the file again")
            else:
                c.oblige(len(files.opened) == 1 and h is files.opened[0] and Path(str(h.path)) == Path(PATH), "the object's file is opened once for the block")
            obey(c, me, files, "inside the block")
            files.can_fail = False
            if inside == "handle":
                if s != "given closed":
                    c.oblige(I.truth(I.getattr(me, "handle")), "the handle is available inside the block")
            elif inside == "close":
                I.call(I.getattr(me, "_close_handle_if_manager"), [], {})
            if end == "exception":
                raise Boom
        n_before = {id(f) for f in files.all if f.is_open}
        raised = None
        try:
            I.with_generator(I.call(I.getattr(me, "open_file"), [], {}), block)
        except OSError:
            raised = "open"
        except Boom:
            raised = "body"
        obey(c, me, files, "after the block")
        if raised == "open":
            c.oblige(not s.endswith("open") and not ran, "only a failure to open the file keeps the block from running")
            c.oblige(not files.left_open(), "nothing is left open when the file cannot be opened")
            return
        c.oblige(len(ran) == 1, "the block runs exactly once")
        c.oblige((raised == "body") == (end == "exception"), "an exception in the block reaches the caller")
        kept = me.attrs["_handle"]
        c.oblige(all(f is kept for f in files.left_open()), "a file opened for the block is closed when the block ends, normally or by an exception")
        if inside != "close" and s.endswith("open"):
            c.oblige(kept is old and old.is_open, "a handle that was open before the block is still open after it")
        if inside == "nothing":
            c.oblige({id(f) for f in files.all if f.is_open} == n_before, "after the block exactly the files open before it are open")
    return job.run(body)


# ------------------------------------------------------------------ paths or handles
def path_or_handle(files, c):
    k = ["str", "path", "open", "closed"][c.choose(4)]
    return k, PATH if k == "str" else Path(PATH) if k == "path" else files.token("caller", k == "open")


def split_job():
    job = Job("split_path_or_handle", budget_s=30)

    def body(job, I, c):
        F = mod("swiftsimio._file_utils")
        files = Files(c, I)
        k, obj = path_or_handle(files, c)
        try:
            name, h = I.call(funcval(F.split_path_or_handle), [obj], {})
        except ValueError:
            c.oblige(k == "closed", "a path or an open handle is accepted")
            return
        c.oblige(name == Path(PATH), "the name is that of the path or of the open file")
        c.oblige(h is (obj if k in ("open", "closed") else None), "the handle is the one given, if any")
        c.oblige(not files.opened, "nothing is opened")
    return job.run(body)


def open_path_job():
    job = Job("open_path_or_handle", budget_s=60)

    def body(job, I, c):
        F = mod("swiftsimio._file_utils")
        files = Files(c, I)
        k, obj = path_or_handle(files, c)
        end = ENDS[c.choose(2)]
        ran = []

        def block(h):
            ran.append(h)
            c.oblige(isinstance(h, SymObj) and h in files.all and h.is_open, "the block has an open file")
            c.oblige(h is obj if k == "open" else True, "a handle given is the one used")
            if end == "exception":
                raise Boom
        raised = None
        try:
            I.with_generator(I.call(funcval(F.open_path_or_handle), [obj], {}), block)
        except OSError:
            raised = "open"
        except ValueError:
            raised = "closed"
        except Boom:
            raised = "body"
        c.oblige(not files.left_open(), "the library's file is closed when the block ends, normally or by an exception")
        c.oblige(k != "open" or (obj.is_open and not files.opened), "the caller's handle is used and stays open")
        c.oblige(raised != "closed" or k == "closed", "a path or an open handle is accepted")
        c.oblige(raised in ("open", "closed") or len(ran) == 1, "the block runs once")
        c.oblige(raised in ("open", "closed") or (raised == "body") == (end == "exception"), "an exception in the block reaches the caller")
    return job.run(body)


def ctor(I, c, files, log, what):
    """Contract of the constructor of a handle-owning class (proved in `constructor_job`): an open handle that is given is
    used and left open; without one, the file it opens is closed again. It may fail."""
    def f(*a, **k):
        h = k.get("handle")
        log.append((what, a, k, h))
        if h is not None:
            c.oblige(isinstance(h, SymObj) and h in files.all and h.is_open, f"{what} is given an open handle", kind="pre")
        if c.choose(2):
            raise Boom(what)
        return SymObj(Rec, {"made_by": what}, name=what)
    return f


def entry_job(which):
    job = Job(f"swiftsimio.{which}", budget_s=60)

    def body(job, I, c):
        S = mod("swiftsimio")
        files = Files(c, I)
        code = c.choose(3)

        def content(f):
            def item(k):
                if code == 0:
                    raise KeyError(k)
                return SymObj(Rec, {"attrs": {"Code": b"SWIFT" if code == 1 else b"Gadget"}}, name=str(k))
            f.attrs[("special", "__getitem__")] = model(item)
        files.content = content
        log = []
        for n in ("SWIFTUnits", "SWIFTMask", "SWIFTDataset", "_metadata_discriminator"):
            fn = ctor(I, c, files, log, n)
            tgt = getattr(S, n, None)
            if tgt is None:
                raise CannotAttach(n)
            if isinstance(tgt, type):
                I.class_models[tgt] = fn
            else:
                job.contracts[funcval(tgt).qual] = lambda I, fv, a, k, fn=fn: fn(*a, **k)
        job.assumed.add("contract:constructors of handle-owning classes (proved per class)")
        k, obj = path_or_handle(files, c)
        out = None
        try:
            out = I.call(funcval(getattr(S, which)), [obj], {})
            raised = None
        except Boom as e:
            raised = e
        except (OSError, ValueError) as e:
            raised = e
        c.oblige(not files.left_open(), f"{which} leaves no file of its own open")
        c.oblige(k != "open" or (obj.is_open and obj.closes == 0), f"{which} leaves the caller's handle open")
        c.oblige(k != "open" or not files.opened, f"{which} uses the handle given")
        if which == "validate_file":
            if raised is None:
                c.oblige(out is True and code == 1, "only SWIFT files are valid")
            else:
                c.oblige(code != 1 or isinstance(raised, OSError) or k == "closed", "a SWIFT file is valid")
        elif raised is None:
            want = {"load": "SWIFTDataset", "mask": "SWIFTMask"}[which]
            c.oblige(isinstance(out, SymObj) and out.attrs.get("made_by") == want, f"{which} gives what was built")
            c.oblige(all(h is None or h is (obj if k == "open" else files.opened[0]) for *_, h in log), "every part is read from the same handle")
    return job.run(body)


# ------------------------------------------------------------------ constructors
CTORS = {
    "SWIFTUnits": ("swiftsimio.metadata.objects", "SWIFTUnits", lambda p, h, m: ([p], {"handle": h})),
    "SWIFTGroupMetadata": ("swiftsimio.metadata.objects", "SWIFTGroupMetadata", lambda p, h, m: ([p], dict(group="PartType0", group_name="gas", metadata=m, scale_factor=0.5, handle=h))),
    "SWIFTSnapshotMetadata": ("swiftsimio.metadata.objects", "SWIFTSnapshotMetadata", lambda p, h, m: ([p], {"units": m, "handle": h})),
    "SWIFTLineOfSightMetadata": ("swiftsimio.metadata.objects", "SWIFTLineOfSightMetadata", lambda p, h, m: ([p], {"units": m, "handle": h})),
    "SWIFTFOFMetadata": ("swiftsimio.metadata.objects", "SWIFTFOFMetadata", lambda p, h, m: ([p], {"units": m, "handle": h})),
    "SWIFTSOAPMetadata": ("swiftsimio.metadata.objects", "SWIFTSOAPMetadata", lambda p, h, m: ([p], {"units": m, "handle": h})),
    "SWIFTMask": ("swiftsimio.masks", "SWIFTMask", lambda p, h, m: ([p], {"metadata": m, "handle": h})),
    "SWIFTDataset": ("swiftsimio.reader", "SWIFTDataset", lambda p, h, m: ([p], {"handle": h})),
    "__SWIFTGroupDataset": ("swiftsimio.reader", "__SWIFTGroupDataset", lambda p, h, m: ([p, m], {"handle": h})),
    "__SWIFTNamedColumnDataset": ("swiftsimio.reader", "__SWIFTNamedColumnDataset",
                                  lambda p, h, m: ([], dict(field_path="PartType0/X", group_metadata=m, named_columns=["a", "b"], name="x", handle=h))),
}
NEEDS_HANDLE = ("__SWIFTGroupDataset", "__SWIFTNamedColumnDataset")


HELPERS = {"get_unit_dictionary", "load_metadata", "load_field_names", "load_named_columns", "load_group_attributes", "get_metadata",
           "postprocess_header", "load_groups", "extract_cosmology", "get_named_column_metadata", "get_mapping_metadata",
           "unpack_subhalo_number", "_unpack_cell_metadata", "_generate_cell_mask", "_update_range_masks", "get_units", "create_datasets",
           "generate_empty_properties", "convert_masks_to_ranges"}


def helper_contracts(job, I, c, cls, files):
    """The methods a constructor calls (new ones are inlined): "may use self.handle, or open_file, may fail; changes the handle in
    no other way" (that no other function opens or closes files is `openers_job`)."""
    HP = provider()
    for k in cls.__mro__:
        if k is HP or k is object or not k.__module__.startswith("swiftsimio"):
            continue
        for n, f in vars(k).items():
            if n not in HELPERS or not hasattr(f, "__code__"):
                continue

            def use(I, fv, args, kw):
                job.assumed.add("contract:methods of handle-owning classes (they reach files through `handle`/`open_file` only)")
                w = c.choose(3)
                if w == 1:
                    I.getattr(args[0], "handle")
                if w == 2:
                    raise Boom(fv.qual)
                return None
            job.contracts[funcval(f).qual] = use


def constructor_job(which):
    job = Job(f"{which}.__init__", budget_s=90)
    job.max_paths = 20000

    def body(job, I, c):
        mname, cname, args = CTORS[which]
        M = mod(mname)
        cls = vars(M).get(cname)
        if cls is None:
            raise CannotAttach(cname)
        files = Files(c, I)
        job.contracts.clear()
        helper_contracts(job, I, c, cls, files)
        log = []
        if which != "SWIFTUnits":
            U = mod("swiftsimio.metadata.objects").SWIFTUnits
            I.class_models[U] = ctor(I, c, files, log, "SWIFTUnits")
        kinds = ["open"] if which in NEEDS_HANDLE else [None, "open"]
        h = given(files, c, kinds)
        meta = SymObj(Rec, dict(units=SymObj(Rec, {}, name="units"), metadata=SymObj(Rec, {}, name="snapshot_metadata"), group="PartType0", group_name="gas",
                                masking_valid=[True, False][c.choose(2)] if which == "SWIFTMask" else True, partial_snapshot=False, output_type="FullVolume",
                                field_names=["a"], field_paths=["PartType0/A"]), name="metadata")
        given_units = c.choose(2) if "Metadata" in which and which != "SWIFTGroupMetadata" else 1
        a, k = args(PATH, h, meta)
        if not given_units:
            k.pop("units")
        me = SymObj(cls, {}, name=which)
        try:
            I.call(funcval(cls.__init__), [me] + a, k)
        except Boom:
            pass
        except OSError:
            c.oblige(h is None, "an open handle is used without opening the file")
        except (RuntimeError, ValueError) as e:
            if isinstance(e, NotImplementedError):
                c.oblige(which == "SWIFTMask" and not meta.attrs["masking_valid"], "the object can be built")
            else:
                c.oblige(False, "the object can be built from a path or an open handle")
        else:
            c.oblige(not files.left_open(), f"a file opened for the construction of {which} is closed at its end")
        if "_handle" in me.attrs:
            obey(c, me, files, f"after construction of {which}")
        if h is not None:
            c.oblige(h.is_open and h.closes == 0, f"{which} leaves the caller's handle open")
            c.oblige(not files.opened, f"{which} uses the handle given")
            c.oblige("_handle" not in me.attrs or me.attrs["_handle"] is h, "the handle given is the one used")
        c.oblige(all(f.path is not None and Path(str(f.path)) == Path(PATH) for f in files.opened), "the object's own file is opened")
    return job.run(body)


# ------------------------------------------------------------------ functions that open files or pass handles on
def classes_ctor(job, I, c, files, log, M, names):
    for n in names:
        fn = ctor(I, c, files, log, n)
        tgt = vars(M).get(n)
        if tgt is None:
            raise CannotAttach(n)
        if isinstance(tgt, type):
            I.class_models[tgt] = fn
        else:
            job.contracts[funcval(tgt).qual] = lambda I, fv, a, k, fn=fn: fn(*a, **k)
    job.assumed.add("contract:constructors of handle-owning classes (proved per class)")


def dataset_job(which):
    """get_units, get_metadata, create_datasets from any state of the object."""
    job = Job(f"SWIFTDataset.{which}", budget_s=90)

    def body(job, I, c):
        M = mod("swiftsimio.reader")
        job.contracts.clear()
        files = Files(c, I)
        log = []
        classes_ctor(job, I, c, files, log, M, ["SWIFTUnits", "_metadata_discriminator", "_generate_datasets"])
        me, s = an_object(files, c, M.SWIFTDataset)
        masked = c.choose(2)
        mask = None
        props = {g: SymObj(Rec, {}, name=g + "_properties") for g in ("gas", "stars")}
        md = SymObj(Rec, {"present_group_names": ["gas", "stars"], "gas_properties": props["gas"], "stars_properties": props["stars"]}, name="metadata")
        if masked:
            mask = SymObj(Rec, {"_handle": me.attrs["_handle"] if c.choose(2) else None, "filename": Path(PATH), "units": SymObj(Rec, {}), "metadata": SymObj(Rec, {})}, name="mask")
        me.attrs["mask"] = mask
        me.attrs["units"] = SymObj(Rec, {}, name="units")
        if which == "create_datasets":
            me.attrs["metadata"] = md
        same = c.choose(2)
        fname = SymObj(Path, {"samefile": model(lambda o: bool(same)), ("special", "__fspath__"): model(lambda: PATH)}, name="filename")
        if masked and which != "create_datasets":
            me.attrs["filename"] = fname
        was_open = {id(f) for f in files.all if f.is_open}
        old = me.attrs["_handle"]
        try:
            I.call(I.getattr(me, which), [], {})
            failed = None
        except (Boom, OSError, AssertionError) as e:
            failed = e
        except (RuntimeError, ValueError) as e:
            c.oblige(False, "the object can be used after its handle has been closed")
            failed = e
        c.oblige({id(f) for f in files.all if f.is_open} == was_open, "afterwards exactly the files open before are open")
        c.oblige(me.attrs["_handle"] is old, "the handle of the object stays")
        obey(c, me, files, "afterwards")
        if s.endswith("open"):
            c.oblige(not files.opened, "an open handle is used without opening the file again")
            c.oblige(all(h is old for *_, h in log), "the parts are read from the open handle")
        if masked and which != "create_datasets":
            if failed is None:
                c.oblige(same or mask.attrs["_handle"] is old, "a mask made for another file is rejected")
                n = which[4:]
                c.oblige(me.attrs[n] is mask.attrs[n], f"the {n} of the mask are used")
            else:
                c.oblige(isinstance(failed, AssertionError) and not same and mask.attrs["_handle"] is not old, "a mask made for the file is accepted")
        elif failed is None:
            if which == "create_datasets":
                c.oblige([a for _, a, *_ in log] == [(me.attrs["filename"], props[g], mask) for g in props] or
                         [tuple(list(a) + [k[x] for x in ("group_metadata", "mask") if x in k])[-2:] for _, a, k, _ in log] == [(props[g], mask) for g in props],
                         "every group present is made from its own metadata and the mask")
                c.oblige(all(me.attrs.get(g) is not None for g in props), "every group present is reachable")
            else:
                made = {"get_units": "SWIFTUnits", "get_metadata": "_metadata_discriminator"}[which]
                x = me.attrs.get(which[4:])
                c.oblige(isinstance(x, SymObj) and x.attrs.get("made_by") == made, f"the {which[4:]} are read from the file")
        else:
            c.oblige(not isinstance(failed, AssertionError), "without a mask nothing is rejected")
    return job.run(body)


TYPES = {"SWIFTSnapshotMetadata": ["FullVolume", "VolumeSubset"], "SWIFTLineOfSightMetadata": ["LineOfSight"], "SWIFTSOAPMetadata": ["SOAP", "SOAPSubset"],
         "SWIFTFOFMetadata": ["FOF", "FOFSubset"]}


def discriminator_job():
    """_metadata_discriminator: class by output type (C22), handles (C11)."""
    job = Job("_metadata_discriminator", budget_s=60)

    def body(job, I, c):
        M = mod("swiftsimio.metadata.objects")
        job.contracts.clear()
        files = Files(c, I)
        log = []
        alltypes = [t for v in TYPES.values() for t in v] + ["Nonsense", None]
        t = alltypes[c.choose(len(alltypes))]
        as_bytes = c.choose(2) if t else 0
        stored = None if t is None else t.encode() if as_bytes else t

        def content(f):
            def item(k):
                c.oblige(f.is_open, "only an open file is read", kind="pre")
                if k != "Header":
                    raise KeyError(k)
                return SymObj(Rec, {"attrs": {} if stored is None else {"OutputType": stored}}, name="Header")
            f.attrs[("special", "__getitem__")] = model(item)
        files.content = content
        classes_ctor(job, I, c, files, log, M, list(TYPES))
        h = given(files, c, [None, "open"])
        units = SymObj(Rec, {}, name="units")
        try:
            x = I.call(funcval(M._metadata_discriminator), [PATH, units], {"handle": h} if h is not None else {})
            failed = None
        except (Boom, OSError, ValueError) as e:
            failed, x = e, None
        c.oblige(not files.left_open(), "no file opened here is left open")
        c.oblige(h is None or (h.is_open and not files.opened), "the handle given is used and stays open")
        if isinstance(failed, ValueError):
            c.oblige(t == "Nonsense", "a known output type is accepted")
        elif failed is None:
            want = [k for k, v in TYPES.items() if (t or "FullVolume") in v]
            c.oblige(bool(want) and x.attrs.get("made_by") == want[0], "the metadata class is that of the output type (FullVolume without one)")
            c.oblige(len(log) == 1 and log[0][3] is h, "the metadata are read through the same handle")
            args = log[0][1] + tuple(log[0][2].values())
            c.oblige(PATH in args and units in args, "the metadata are those of this file and its units")
    return job.run(body)


def los_groups_job():
    job = Job("SWIFTLineOfSightMetadata.present_groups", budget_s=60)

    def body(job, I, c):
        M = mod("swiftsimio.metadata.objects")
        job.contracts.clear()
        files = Files(c, I)
        names = [["Header", "LOS_0001", "LOS_0000", "Units"], ["Header"], ["Cells", "LOS_0000"]][c.choose(3)]

        def content(f):
            def keys():
                c.oblige(f.is_open, "only an open file is read", kind="pre")
                return list(names)
            f.attrs["keys"] = model(keys)
            f.attrs[("special", "__iter__")] = model(keys)
        files.content = content
        me, s = an_object(files, c, M.SWIFTLineOfSightMetadata)
        was_open = {id(f) for f in files.all if f.is_open}
        I.models[sorted] = lambda x, **k: sorted(x, **k)
        try:
            g = I.getattr(me, "present_groups")
        except OSError:
            c.oblige(not s.endswith("open"), "an open handle is used")
            g = None
        c.oblige({id(f) for f in files.all if f.is_open} == was_open, "afterwards exactly the files open before are open")
        obey(c, me, files, "afterwards")
        if g is not None:
            c.oblige(list(g) == sorted(n for n in names if n.startswith("LOS_")), "the groups are the lines of sight of the file")
            c.oblige(list(I.getattr(me, "present_group_names")) == [n.lower() for n in g] if not files.can_fail else True, "names follow the groups")
    return job.run(body)


def subset_job():
    """write_subset: file handling, and that it goes through every part."""
    job = Job("write_subset", budget_s=60)

    def body(job, I, c):
        M = mod("swiftsimio.subset_writer")
        job.contracts.clear()
        files = Files(c, I)
        out = []

        def opener(name=None, mode="r", *a, **k):
            if c.choose(2):
                raise OSError
            f = files.token("library", True, name)
            files.opened.append(f)
            if name == "/data/out.hdf5":
                c.oblige(mode in ("w", "w-", "x"), "the subset is a new file", kind="pre")
                out.append(f)
            else:
                c.oblige(mode == "r", "the snapshot is opened for reading only", kind="pre")
            return f
        I.class_models[h5py.File] = opener
        md, s = an_object(files, c)
        log = []
        mask = SymObj(Rec, {"constrained": [None, "constrain_spatial"][c.choose(2)], "metadata": md, "convert_masks_to_ranges": model(lambda: log.append(("ranges",)))}, name="mask")
        dsets, links, paths = SymObj(Rec, {}, name="datasets"), SymObj(Rec, {}, name="links"), SymObj(Rec, {}, name="paths")

        def part(name, result):
            fn = vars(M).get(name)
            if fn is None:
                raise CannotAttach(name)

            def f(I, fv, a, k):
                job.assumed.add("contract:" + fv.qual)
                c.oblige(all(x.is_open for x in list(a) + list(k.values()) if x in files.all), "only open files are used", kind="pre")
                log.append((name, a + list(k.values()) if isinstance(a, list) else list(a) + list(k.values())))
                if c.choose(2):
                    raise Boom(name)
                return result
            job.contracts[funcval(fn).qual] = f
        part("_find_links", (links, paths))
        part("_find_datasets", dsets)
        part("_write_metadata", None)
        part("_write_datasubset", None)
        part("_connect_links", None)
        was_open = {id(f) for f in files.all if f.is_open}
        allow = c.choose(2)
        try:
            I.call(funcval(M.write_subset), ["/data/out.hdf5", mask], {"allow_unconstrained": bool(allow)})
            failed = None
        except (Boom, OSError) as e:
            failed = e
        except ValueError as e:
            failed = e
            c.oblige(mask.attrs["constrained"] is None and not allow, "a constrained mask is accepted")
            c.oblige(not files.opened and not log, "nothing is written for a rejected mask")
        c.oblige({id(f) for f in files.all if f.is_open} == was_open, "afterwards exactly the files open before are open")
        obey(c, md, files, "afterwards")
        if failed is None:
            c.oblige(mask.attrs["constrained"] is not None or allow, "a mask without constraint is rejected")
            c.oblige(len(out) == 1, "one file is written")
            src = md.attrs["_handle"] if s.endswith("open") else next((f for f in files.opened if f not in out), None)
            names = [n for n, *_ in log]
            c.oblige(names and names[0] == "ranges", "the mask is brought into the form of ranges before it is used")
            seen = {n: a for n, *r in log if r for a in r}
            c.oblige(all(any(x is src for x in seen.get(n, [])) for n in ("_find_links", "_write_metadata", "_write_datasubset", "_find_datasets")), "everything is read from the snapshot of the mask")
            c.oblige(all(any(x is out[0] for x in seen.get(n, [])) for n in ("_write_metadata", "_write_datasubset", "_connect_links")), "everything is written to the new file")
            c.oblige(all(any(x is mask for x in seen.get(n, [])) for n in ("_write_metadata", "_write_datasubset")), "the mask is used for counts and data")
            c.oblige(any(x is dsets for x in seen.get("_write_datasubset", [])), "all datasets found are written")
            c.oblige(all(any(x is links for x in seen.get(n, [])) for n in ("_write_metadata", "_write_datasubset", "_connect_links")) and
                     any(x is paths for x in seen.get("_connect_links", [])), "links are not copied but restored")
            c.oblige(names.index("_write_datasubset") < names.index("_connect_links"), "links are restored after their targets")
    return job.run(body)


# functions in which files may be opened (each is under contract here), by module
OPENERS = {"swiftsimio._handle_provider": None,      # None: the whole module is inlined into the contracts above
           "swiftsimio.metadata.objects": {"_metadata_discriminator", "present_groups"},
           "swiftsimio.snapshot_writer": {"write"}, "swiftsimio.subset_writer": {"write_subset"}}


def openers_job():
    """Frame: no other function of the library opens or closes an HDF5 file (what the contracts of helper methods assume)."""
    job = Job("frame: where files are opened and closed", budget_s=60)

    def body(job, I, c):
        import swiftsimio
        root = Path(swiftsimio.__file__).parent
        n = 0
        for f in sorted(root.rglob("*.py")):
            name = ".".join(("swiftsimio",) + f.relative_to(root).with_suffix("").parts)
            tree = ast.parse(f.read_text())

            def visit(node, fn):
                nonlocal n
                for ch in ast.iter_child_nodes(node):
                    inner = ch.name if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
                    if isinstance(ch, ast.Call):
                        t = ch.func
                        what = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                        opens = what == "File" or (what == "close" and isinstance(t, ast.Attribute) and not ch.args)
                        if opens:
                            n += 1
                            ok = name in OPENERS and (OPENERS[name] is None or fn in OPENERS[name])
                            if not ok:
                                raise CannotAttach(f"{name}.{fn} opens or closes a file (line {ch.lineno})")
                    visit(ch, inner)
            visit(tree, None)
        c.oblige(True, f"files are opened and closed in functions under contract only ({n} places)")
    return job.run(body)
