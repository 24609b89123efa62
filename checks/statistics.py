"""Contracts of the parser of statistics files (C23).

A line of data is an opaque string: it is blank, or consists of tokens that are numbers. Ghost functions of (line, column): the
number a token denotes, and whether it is written as an integer; of a line: whether it is blank, or starts with a space."""
import re

import numpy as np
import z3

from checks.handles import Rec, mod, model
from pyvc.arrays import SArr, Selection
from pyvc.interp import SIter, SymObj, funcval
from pyvc.job import Job, LoopSpec
from pyvc.values import PathEnd, SV, Unsupported, as_bool, compare, kind, land, lnot, lor, term

A, S = "swiftsimio.accelerated", "swiftsimio.statistics"
LO, HI = -2**63, 2**63 - 1


class Str:
    """Class of opaque strings."""


class Ghost:
    """n lines with nc columns."""

    def __init__(self, I, c, n, nc):
        self.I, self.n, self.nc = I, n, nc
        f = lambda name, *s: c.func(name, *s)
        self.blank_, self.start_, self.int_, self.val_, self.ival_ = (f("blank", "i", "b"), f("starts_with_space", "i", "b"), f("isint", "i", "i", "b"),
                                                                       f("value", "i", "i", "r"), f("ivalue", "i", "i", "i"))
        a, b = z3.Ints("a!s b!s")
        iv, v = self.ival_(a, b), self.val_(a, b)
        c.assume(z3.ForAll([a, b], z3.Implies(self.int_(a, b), v == z3.ToReal(iv)), patterns=[v, iv]))
        i = z3.Int("i!s")
        c.assume(z3.ForAll([i], z3.Implies(self.blank_(i), self.start_(i)), patterns=[self.blank_(i)]))
        p = c.int("p")
        pred = z3.Not(self.blank_(p.t))
        self.sel = Selection(n, lambda k: SV(z3.Not(self.blank_(term(k)))))
        c.bindings.setdefault("filters", []).append((n, p, pred, self.sel))
        self.tokens = {}
        I.models[int] = self.wrap(I.models[int], self.to_int)
        I.models[float] = self.wrap(I.models[float], self.to_float)
        for fn in (np.array, np.asarray):
            I.models[fn] = self.array(I.models[fn])

    def lines(self, start=0):
        return SIter(self.n, self.line, lst=True)

    def rows(self):
        return SIter(self.sel.count, lambda k: self.row(SV(self.sel.Z(term(k)))), lst=True)

    def blank(self, k):
        return SV(self.blank_(term(k)))

    def line(self, k):
        o = SymObj(Str, {"k": k}, name="line")

        def method(f):
            return model(f)
        text = lambda: self.text(lnot(self.blank(k)), k)
        o.attrs.update(split=method(lambda *a: self.no_args(a) or self.row(k)), strip=method(lambda *a: self.no_args(a, " \n", " \t\n", " \r\n") or text()),
                       rstrip=method(lambda *a: self.no_args(a, "\n", "\r\n") or (self.line(k) if a else self.text(lnot(self.blank(k)), k, True))),
                       lstrip=method(lambda *a: self.no_args(a) or text()), isspace=method(lambda: self.blank(k)),
                       startswith=method(lambda s: self.starts(k, s)), expandtabs=method(lambda *a: self.line(k)))
        o.attrs[("special", "__bool__")] = method(lambda: True)       # at least the end of the line
        o.attrs[("special", "__getitem__")] = method(lambda i: self.part(k, i))
        return o

    def no_args(self, a, *allowed):
        if a and not (len(a) == 1 and (a[0] is None or a[0] in allowed)):
            raise Unsupported("arguments of a method of a line")

    def starts(self, k, s):
        if isinstance(s, str) and s == "#":
            return False            # a line of data
        if isinstance(s, str) and s.isspace():
            return SV(self.start_(term(k)))
        raise Unsupported("startswith of a line")

    def part(self, k, i):
        if i == 0 or (isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step is None):
            o = SymObj(Str, {}, name="first character")
            sp = SV(self.start_(term(k)))
            o.attrs.update(isspace=model(lambda: sp), strip=model(lambda: self.text(lnot(sp), k)))
            o.attrs[("special", "__bool__")] = model(lambda: True)
            o.attrs[("special", "__eq__")] = model(lambda x: False if x == "#" else self.unsupported())
            o.attrs[("special", "__ne__")] = model(lambda x: True if x == "#" else self.unsupported())
            return o
        raise Unsupported("part of a line")

    def unsupported(self):
        raise Unsupported("comparison of a line")

    def text(self, nonempty, k, front=False):
        """A stripped line."""
        o = SymObj(Str, {}, name="text")
        o.attrs.update(split=model(lambda *a: self.no_args(a) or self.row(k)), strip=model(lambda *a: self.text(nonempty, k)))
        o.attrs[("special", "__bool__")] = model(lambda: nonempty)

        def same(x, neg):
            if not (isinstance(x, str) and x == ""):
                raise Unsupported("comparison of a line")
            return nonempty if neg else lnot(nonempty)
        o.attrs[("special", "__eq__")] = model(lambda x: same(x, False))
        o.attrs[("special", "__ne__")] = model(lambda x: same(x, True))
        o.attrs[("special", "__len__")] = model(lambda: self.unsupported())
        return o

    def row(self, k):
        """The tokens of a line."""
        from pyvc.values import ite
        return SIter(ite(self.blank(k), 0, self.nc), lambda j: self.token(k, j), lst=True)

    def token(self, k, j):
        o = SymObj(Str, {"k": k, "j": j}, name="token")
        isint = SV(self.int_(term(k), term(j)))
        o.attrs.update(strip=model(lambda *a: o))
        o.attrs[("special", "__bool__")] = model(lambda: True)
        return o

    def is_token(self, v):
        return isinstance(v, SymObj) and v.name == "token"

    def wrap(self, old, f):
        return lambda x=0, *a: f(x) if self.is_token(x) and not a else old(x, *a)

    def to_int(self, t):
        k, j = term(t.attrs["k"]), term(t.attrs["j"])
        self.I.partial(SV(self.int_(k, j)), ValueError("invalid literal for int()"))
        return SV(self.ival_(k, j))

    def to_float(self, t):
        return SV(self.val_(term(t.attrs["k"]), term(t.attrs["j"])))

    def array(self, old):
        """np.array of symbolic integers: they fit into 64 bits, or that is an error; np.array of tokens parses them."""
        I = self.I

        def f(v, dtype=None, **kw):
            if isinstance(v, SIter) and v.lst:
                p, t, conds = I.probe(v, v.elem)
                if not self.is_token(t):
                    raise Unsupported("array of a list of objects")
                if dtype is None:
                    raise Unsupported("array of strings")
                kd = np.dtype(dtype).kind
                if kd == "f":
                    return SArr((v.n,), lambda k: self.to_float(v.elem(k)), "r", "parsed")
                if kd not in "iu":
                    raise Unsupported("array of strings")
                I.raise_where(p, v.n, [(SV(self.int_(term(t.attrs["k"]), term(t.attrs["j"]))), ValueError("invalid literal"))])
                v = SArr((v.n,), lambda k: SV(self.ival_(term(v.elem(k).attrs["k"]), term(v.elem(k).attrs["j"]))), "i", "parsed", lst=True)
            if isinstance(v, SArr) and v.ndim == 1 and v.dt == "i":
                if dtype is None:
                    raise Unsupported("array of integers of unknown size")
                if np.dtype(dtype).kind in "iu":
                    b = np.iinfo(dtype)
                    x = lambda k: land(compare(">=", v.get(k), int(b.min)), compare("<=", v.get(k), int(b.max)))
                    p, ok, _ = I.probe(SIter(v.shape[0], x), x)
                    I.raise_where(p, v.shape[0], [(ok, OverflowError("Python int too large to convert to C long"))])
                    return SArr(v.shape, v.snapshot(), "i", "parsed")
            if isinstance(v, SArr) and dtype is not None:
                if np.dtype(dtype).kind == "f" and np.dtype(dtype).itemsize < 8:
                    raise Unsupported("single precision")       # rounds: reported by the run-time part
                if np.dtype(dtype).kind in "iu" and v.dt == "r":
                    raise Unsupported("truncation")
            return old(v, dtype=dtype, **kw) if dtype is not None else old(v, **kw)
        return f

    # ---- specification
    def column_holds(self, c, v, j, what=""):
        """v is column j: the numbers written in it, in order."""
        ok = isinstance(v, SArr) and v.ndim == 1
        c.oblige(ok, f"a column is a one-dimensional array{what}")
        c.oblige(compare("==", v.shape[0], self.sel.count), f"a column has one number per line of data{what}")
        k = c.int("k")
        c.assume(land(compare(">=", k, 0), compare("<", k, self.sel.count)))
        z = self.sel.Z(k.t)
        x = v.get(k)
        c.oblige(SV(self.val_(z, term(j))) == x, f"entry k of a column is the number written in it on line k{what}")
        if v.dt != "i":
            i = z3.Int("q!s")
            zi = self.sel.Z(i)
            iv = self.ival_(zi, term(j))
            all_int = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.sel.count.t), z3.And(self.int_(zi, term(j)), iv >= LO, iv <= HI)), patterns=[zi])
            c.oblige(lnot(SV(all_int)), f"a column of integers (that fit) is not converted to floating point{what}", hyps=[self.sel.count.t > 0])


class Growing(LoopSpec):
    """A loop over the columns that appends to an empty list: after k columns the list holds the first k columns."""

    def __init__(self, ghost_, names):
        super().__init__([], None, nth=None)
        self.g, self.where = ghost_, names

    def prepare(self, I, fr):
        from pyvc.interp import mutated_names
        self.lists_ = [n for n in self.names_of if isinstance(fr.locals.get(n), list) and not fr.locals[n]]
        for n in self.lists_:
            fr.locals[n] = self.g.growing()

    def havoc_value(self, n, v):
        if isinstance(v, SymObj) and v.name == "growing":
            from pyvc.values import ctx
            v.attrs["n"] = ctx().int("len")
            return v
        return None

    def invf_(self, env, k):
        for n in self.lists_:
            o = getattr(env, n)
            yield f"one array per column so far", compare("==", o.attrs["n"], k)


def no_error(c, f):
    try:
        return f()
    except (ValueError, OverflowError, IndexError, KeyError, TypeError, AttributeError) as e:
        c.oblige(False, f"the file is read ({type(e).__name__} instead: {e})")


def columns_job():
    job = Job("list_of_strings_to_arrays", budget_s=150)

    def body(job, I, c):
        mod(A)
        n, nc = c.int("lines"), c.int("columns")
        c.assume(land(n >= 0, nc >= 1))
        g = Ghost(I, c, n, nc)

        def growing():
            o = SymObj(Rec, {"n": 0}, name="growing")

            def append(v):
                g.column_holds(c, v, o.attrs["n"])
                o.attrs["n"] = o.attrs["n"] + 1
            o.attrs["append"] = model(append)
            o.attrs[("special", "__len__")] = model(lambda: o.attrs["n"])
            return o
        g.growing = growing

        def loop_spec(I, node, fr):
            from pyvc.interp import mutated_names
            sp = Growing(g, None)
            sp.names_of = mutated_names(node.body)
            sp.invf = sp.invf_
            return sp
        job.loop_spec = loop_spec
        f = getattr(mod(A), "list_of_strings_to_arrays")
        r = no_error(c, lambda: I.call(funcval(f), [g.lines()], {}))
        if isinstance(r, (list, tuple)):
            c.oblige(len(r) == 0, "all columns are returned")
            c.oblige(compare("==", g.sel.count, 0), "no columns only without lines of data")
        elif isinstance(r, SymObj) and r.name == "growing":
            want = r.attrs["n"]
            c.oblige(lor(land(compare(">", g.sel.count, 0), compare("==", want, nc)), land(compare("==", g.sel.count, 0), compare("==", want, 0))), "as many columns as are written")
        elif isinstance(r, SIter):
            j = c.int("j")
            c.oblige(lor(land(compare(">", g.sel.count, 0), compare("==", r.n, nc)), land(compare("==", g.sel.count, 0), compare("==", r.n, 0))), "as many columns as are written")
            c.assume(land(j >= 0, compare("<", j, r.n)))
            g.column_holds(c, r.elem(j), j)
        else:
            raise Unsupported("result")
    return job.run(body)


HEADERS = [
    (["# Global statistics", "######", "#"], [("The current time", "9.778131e+05 Myr", "Time"), ("Scale-factor", "dimensionless", "a"), ("Total mass. All of it", "1.988410e+43 g", "Total mass")]),
    ([], [("Number of steps", None, "Step"), ("Max. rate of accretion", "2.5 ", "Max rate")]),
    (["# SWIFT", "# (by the way)"], [("Kinetic energy", "1e10 erg", "Kinetic  energy".replace("  ", " "))]),
    (["#"], [(f"Column {i}", "3.0 km/s" if i % 3 else None, f"Col. {i}") for i in range(12)]),
]


def header(case):
    pre, cols = HEADERS[case]
    lines = list(pre)
    for j, (name, unit, _) in enumerate(cols):
        lines.append(f"# ({j})   {name}{' of everything. Explained.' if j == 2 else ''}" if j != 2 else f"# ({j})   {name}")
        if unit is not None:
            lines.append(f"#      Unit = {unit}")
    lines.append("#  " + "   ".join(c for *_, c in cols))
    return [x + "\n" for x in lines]


def snake(c):
    return c.replace(".", "").replace(" ", "_").lower()


def unit_models(job, I):
    U = mod(S).unyt
    job.assumed.add("contract:constructors of unyt hold the value, unit and name they are given")

    def maker(cls):
        return lambda value=None, units=None, *a, **k: SymObj(cls, {"value": value, "unit": units, "name_": k.get("name")}, name=cls.__name__)
    for cls in (U.unyt_array, U.unyt_quantity):
        I.class_models[cls] = maker(cls)
    return U


def read_job():
    job = Job("SWIFTStatisticsFile._read_file", budget_s=60)

    def body(job, I, c):
        job.used_bound = True       # four layouts of the header; arbitrary data
        case = c.choose(len(HEADERS))
        empty = c.choose(2)
        U = unit_models(job, I)
        head = header(case)
        n, nc = (c.int("lines"), c.int("columns")) if not empty else (0, 1)
        if not empty:
            c.assume(land(n >= 1, nc >= 1))
        g = Ghost(I, c, n, nc)
        h = len(head)

        def item(k):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("step")
                a = 0 if k.start is None else k.start
                if isinstance(a, SV) or a < 0 or k.stop is not None:
                    raise Unsupported("slice of the lines")
                if a >= h:
                    return SIter(n - (a - h), lambda q: g.line(q + (a - h)), lst=True) if a > h else g.lines()
                return SymObj(Rec, {}, name="lines with a header")
            if isinstance(k, SV):
                raise Unsupported("line")
            if k < 0:
                raise Unsupported("line")
            if k < h:
                return head[k]
            I.partial(compare("<", k - h, n), IndexError("list index out of range"))
            return g.line(k - h)
        lines = head if empty else SymObj(Rec, {}, name="lines")
        if not empty:
            lines.attrs[("special", "__getitem__")] = model(item)
            lines.attrs[("special", "__len__")] = model(lambda: n + h)
        opened = []
        handle = SymObj(Rec, {"readlines": model(lambda: lines), "close": model(lambda: opened.append("closed"))}, name="file")
        handle.attrs[("special", "__enter__")] = model(lambda: handle)
        handle.attrs[("special", "__exit__")] = model(lambda *a: opened.append("closed") and None)
        I.models[open] = lambda f, *a, **k: opened.append((f, a, k)) or handle
        me = SymObj(mod(S).SWIFTStatisticsFile, {"filename": "energy.txt"}, name="statistics")
        no_error(c, lambda: I.call(I.getattr(me, "_read_file"), [], {}))
        cols = HEADERS[case][1]
        get = lambda k: me.attrs.get(k)
        c.oblige(opened and isinstance(opened[0], tuple) and opened[0][0] == "energy.txt", "the file of that name is read")
        c.oblige(isinstance(get("header_snake_case_names"), list) and get("header_snake_case_names") == [snake(x[2]) for x in cols], "columns have the names of the last line of the header")
        names = get("header_names")
        want = [x[0].split(".")[0] for x in cols]
        c.oblige(isinstance(names, list) and [x.split(".")[0].strip() for x in names] == want, "descriptions are those of the header, in order")
        units = get("header_units")
        for nm, (_, u, _) in zip(names, cols):
            x = units.get(nm)
            if u is None or u == "dimensionless":
                c.oblige(x is U.dimensionless, "a column without unit is dimensionless")
            else:
                v, _, t = u.partition(" ")
                c.oblige(isinstance(x, SymObj) and x.attrs["value"] == float(v) and x.attrs["unit"] == t, "the unit of a column is the one in the header")
        raw = get("raw_lines")
        if empty:
            c.oblige(isinstance(raw, list) and len(raw) == 0, "no data")
        else:
            if not isinstance(raw, SIter):
                raise Unsupported("lines of data")
            from pyvc.values import ctx
            p, t, _ = I.probe(raw, raw.elem)
            if not (isinstance(t, SymObj) and t.name == "line"):
                raise Unsupported("lines of data")
            # the lines that are not blank are the same, in order
            pred = lambda q: z3.Not(g.blank_(term(raw.elem(q).attrs["k"])))
            same = c.entails(as_bool(compare("==", raw.n, n))) and c.entails(z3.Implies(z3.And(p.t >= 0, p.t < term(n)), pred(p) == z3.Not(g.blank_(p.t))))
            every = c.entails(z3.Implies(z3.And(p.t >= 0, p.t < term(raw.n)), pred(p)))       # blank lines were dropped
            sel = g.sel if same else None if every else Selection(raw.n, lambda q: SV(pred(q)))
            count, Z = (sel.count, lambda q: SV(sel.Z(q.t))) if sel is not None else (raw.n, lambda q: q)
            c.oblige(compare("==", count, g.sel.count), "every line of data is kept")
            k = c.int("k")
            c.assume(land(k >= 0, compare("<", k, count)))
            c.oblige(compare("==", raw.elem(Z(k)).attrs["k"], SV(g.sel.Z(k.t))), "lines of data are kept in order")
    return job.run(body)


def process_job():
    job = Job("SWIFTStatisticsFile._process_raw_lines", budget_s=60)

    def body(job, I, c):
        job.used_bound = True       # up to five columns, arbitrary contents
        U = unit_models(job, I)
        nc = c.choose(5) + 1
        empty = c.choose(2)
        f = getattr(mod(A), "list_of_strings_to_arrays")
        raw = SymObj(Rec, {}, name="lines of data")
        cols = [SArr((c.int("rows"),), lambda k: 0, "r", f"column {j}") for j in range(nc)]
        calls = []

        def parse(I, fv, args, kw):
            job.assumed.add("contract:" + fv.qual)
            v = I.bind(fv, args, kw)
            c.oblige(list(v.values())[0] is raw, "the lines of data are parsed", kind="pre")
            return [] if empty else list(cols)
        job.contracts[funcval(f).qual] = parse
        names = [f"Column {j}" for j in range(nc)]
        units = {n: SymObj(Rec, {}, name=f"unit {n}") for n in names}
        snakes = [f"name_{j}" for j in range(nc)]
        me = SymObj(mod(S).SWIFTStatisticsFile, {"filename": "energy.txt", "raw_lines": raw, "header_names": list(names), "header_units": dict(units), "header_snake_case_names": list(snakes)},
                    name="statistics")
        no_error(c, lambda: I.call(I.getattr(me, "_process_raw_lines"), [], {}))
        for j in range(nc):
            x = me.attrs.get(snakes[j])
            ok = isinstance(x, SymObj) and x.cls is U.unyt_array
            c.oblige(ok, "every column is there")
            if ok:
                v = x.attrs["value"]
                c.oblige(v is cols[j] if not empty else isinstance(v, list) and not v or isinstance(v, SArr) and compare("==", v.shape[0], 0) or isinstance(v, np.ndarray) and v.size == 0,
                         "a named column holds the numbers of that column")
                c.oblige(x.attrs["unit"] is units[names[j]], "with the unit of that column")
    return job.run(body)
