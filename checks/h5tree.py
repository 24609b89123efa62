"""Ghost model of the contents of an HDF5 file: groups, datasets, attributes and soft links with the operations of h5py.

The names are concrete; what the datasets and attributes hold is arbitrary (any value of the prover). A file can be read-only:
changing it is then a failed obligation."""
import h5py

from pyvc.interp import SymObj
from pyvc.values import Unsupported


def model(f):
    f.pyvc_model = True
    return f


class Rec:
    pass


class Tree:
    """All nodes made on one path. `what_is(value)`: shape and dtype of what is stored as a dataset."""

    def __init__(self, c, I=None):
        self.c, self.I = c, I
        if I is not None:
            I.class_models[h5py.SoftLink] = h5py.SoftLink
        self.log = []           # (operation, node, …)
        self.readonly = set()

    # ---- nodes
    def attributes(self, owner, d):
        a = SymObj(h5py.AttributeManager, {"d": dict(d)}, name="attributes")
        D = a.attrs["d"]

        def put(k, v, *r, **kw):
            self.changed(owner)
            D[k] = v

        def get(k, default=None):
            return D.get(k, default)

        def item(k):
            if k not in D:
                raise KeyError(k)
            return D[k]
        a.attrs.update(get=model(get), create=model(put), modify=model(put), items=model(lambda: list(D.items())), keys=model(lambda: list(D)),
                       values=model(lambda: list(D.values())), update=model(lambda o: [put(k, v) for k, v in dict(o).items()]))
        for n, f in (("__getitem__", item), ("__setitem__", put), ("__contains__", lambda k: k in D), ("__iter__", lambda: list(D)), ("__len__", lambda: len(D)),
                     ("__bool__", lambda: True)):
            a.attrs[("special", n)] = model(f)
        return a

    def dataset(self, data, attrs=(), dtype=None, shape=None, name="dataset"):
        d = SymObj(h5py.Dataset, {}, name=name)
        d.attrs["data"] = data
        d.attrs["dtype"] = dtype if dtype is not None else getattr(data, "h5dtype", SymObj(Rec, {}, name="dtype"))
        d.attrs["attrs"] = self.attributes(d, dict(attrs))

        def get(k):
            if k is Ellipsis or k == slice(None) or k == ():
                return d.attrs["data"]
            return self.I.getitem(d.attrs["data"], k)

        def put(k, v):
            self.changed(d)
            if not (k is Ellipsis or k == slice(None) or k == ()):
                raise Unsupported("part of a dataset is written")
            d.attrs["data"] = v
        d.attrs[("getattr", "shape")] = model(lambda o: shape if shape is not None else getattr(d.attrs["data"], "shape"))
        for n, f in (("__getitem__", get), ("__setitem__", put), ("__bool__", lambda: True)):
            d.attrs[("special", n)] = model(f)
        return d

    def group(self, children=(), attrs=(), cls=h5py.Group, name="group"):
        g = SymObj(cls, {}, name=name)
        K = dict(children)
        g.attrs["children"] = K
        g.attrs["attrs"] = self.attributes(g, dict(attrs))

        def find(path, links=True):
            node = g
            if path.startswith("/"):
                node = g.attrs.get("root", g)
            parts = [p for p in path.split("/") if p]
            for i, p in enumerate(parts):
                if not isinstance(node, SymObj) or "children" not in node.attrs or p not in node.attrs["children"]:
                    return None
                node = node.attrs["children"][p]
                if isinstance(node, h5py.SoftLink) and (links or i + 1 < len(parts)):
                    node = root_of(g).attrs["find"](node.path)
            return node

        def item(k):
            n = find(k)
            if n is None:
                raise KeyError(k)
            return n

        def place(path, node, make=True):
            self.changed(g)
            parts = [p for p in path.split("/") if p]
            at = root_of(g) if path.startswith("/") else g
            for p in parts[:-1]:
                nxt = at.attrs["children"].get(p)
                if isinstance(nxt, h5py.SoftLink):
                    nxt = root_of(g).attrs["find"](nxt.path)
                if nxt is None:
                    nxt = self.group()
                    self.rooted(nxt, root_of(g))
                    at.attrs["children"][p] = nxt
                if "children" not in nxt.attrs:
                    raise ValueError("not a group")
                at = nxt
            if parts[-1] in at.attrs["children"]:
                raise ValueError("Unable to create dataset (name already exists)")
            at.attrs["children"][parts[-1]] = node
            if isinstance(node, SymObj):
                self.rooted(node, root_of(g))
            return node

        def put(k, v):
            place(k, v if isinstance(v, h5py.SoftLink) or (isinstance(v, SymObj) and v.cls in (h5py.Dataset, h5py.Group)) else self.dataset(v))

        def create_dataset(name, shape=None, dtype=None, data=None, **kw):
            if data is None:
                raise Unsupported("create_dataset without data")
            self.log.append(("create", name, data, kw, dtype))
            return place(name, self.dataset(data, dtype=dtype))

        def get(k, default=None, getlink=False, getclass=False):
            n = find(k, links=not getlink)
            if n is None:
                return default
            if getlink and not isinstance(n, h5py.SoftLink):
                return SymObj(h5py.HardLink, {}, name="link")
            return n

        def copy(source, dest, name=None, **kw):
            if kw:
                raise Unsupported("copy with options")
            src = item(source) if isinstance(source, str) else source
            nm = name if name is not None else source.rstrip("/").split("/")[-1] if isinstance(source, str) else None
            if isinstance(dest, str):
                dest, nm = g, dest
            if nm is None:
                raise Unsupported("copy without a name")
            dest.attrs["place"](nm, self.clone(src))

        def visit(K):
            return list(K)
        g.attrs.update(find=find, place=place, get=model(get), keys=model(lambda: list(K)), values=model(lambda: [find(k) for k in K]),
                       items=model(lambda: [(k, find(k)) for k in K]), create_group=model(lambda name, **k: place(name, self.group())),
                       create_dataset=model(create_dataset), copy=model(copy),
                       require_group=model(lambda name: find(name) if find(name) is not None else place(name, self.group())))
        for n, f in (("__getitem__", item), ("__setitem__", put), ("__contains__", lambda k: find(k) is not None), ("__iter__", lambda: list(K)),
                     ("__len__", lambda: len(K)), ("__bool__", lambda: True), ("__delitem__", lambda k: self.remove(g, k))):
            g.attrs[("special", n)] = model(f)
        return g

    def remove(self, g, k):
        self.changed(g)
        del g.attrs["children"][k]

    def file(self, children=(), attrs=(), readonly=False):
        f = self.group(children, attrs, cls=h5py.File, name="file")
        self.rooted(f, f)
        if readonly:
            self.readonly |= {id(n) for n in self.nodes(f)}
        f.attrs[("special", "__enter__")] = model(lambda: f)
        f.attrs[("special", "__exit__")] = model(lambda *a: None)
        f.attrs["close"] = model(lambda: None)
        return f

    def nodes(self, g):
        yield g
        for n in g.attrs.get("children", {}).values():
            if isinstance(n, SymObj):
                yield from self.nodes(n)

    def rooted(self, node, root):
        for n in self.nodes(node):
            n.attrs["root"] = root

    def clone(self, n):
        if isinstance(n, h5py.SoftLink):
            return h5py.SoftLink(n.path)
        a = n.attrs["attrs"].attrs["d"]
        if "children" in n.attrs:
            return self.group({k: self.clone(v) for k, v in n.attrs["children"].items()}, a)
        return self.dataset(n.attrs["data"], a, dtype=n.attrs["dtype"])

    def changed(self, node):
        if id(node) in self.readonly:
            self.c.oblige(False, "the file read is not changed", kind="pre")


def root_of(g):
    return g.attrs.get("root", g)


def paths(g, prefix="", links=None):
    """-> {path: dataset}, links {path: target}; soft links are not followed."""
    links = {} if links is None else links
    out = {}
    for k, n in g.attrs["children"].items():
        p = f"{prefix}/{k}"
        if isinstance(n, h5py.SoftLink):
            links[p] = n.path
        elif "children" in n.attrs:
            out.update(paths(n, p, links)[0])
        else:
            out[p] = n
    return out, links


def groups(g, prefix=""):
    yield prefix, g
    for k, n in g.attrs["children"].items():
        if isinstance(n, SymObj) and "children" in n.attrs:
            yield from groups(n, f"{prefix}/{k}")
