"""Contracts of cosmo_factor (C06), and the model of sympy expressions in the scale factor they are built on."""
import ast
import importlib

import z3

from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, as_real, compare, concrete, is_sym, kind, land, lnot, lor, power, term

MOD = "swiftsimio.objects"
OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "**": ast.Pow}


def objects():
    return importlib.import_module(MOD)


def model(f):
    f.pyvc_model = True
    return f


class Algebra:
    """Expressions in the scale factor, known by what they denote: the number at each scale factor. Products, quotients and powers of
    expressions denote products, quotients and powers; expressions that compare equal denote the same."""

    def __init__(self, c):
        self.c = c
        self.pow = c.func("power", "r", "r", "r")
        c.power_rule = self.power
        self.scales = []
        self.n = 0
        c.algebra = self
        self.same = {}
        self.keep = []

    def power(self, x, p):
        return SV(self.pow(as_real(x), as_real(p)))

    def expr(self, den, name, label="expr"):
        import sympy
        o = SymObj(sympy.Expr, dict(den=den), name=name)

        def binary(f, g):
            def op(other):
                if isinstance(other, SymObj) and "den" in other.attrs:
                    return self.expr(lambda s: f(den(s), other.attrs["den"](s)), f"({name}{g}{other.name})")
                if kind(other) in "ir":
                    return self.expr(lambda s: f(den(s), other), f"({name}{g}..)")
                raise Unsupported("operand of a sympy expression")
            return model(op)

        def pw(p):
            if kind(p) not in "ir":
                raise Unsupported("exponent of a sympy expression")
            return self.expr(lambda s: power(den(s), p), f"{name}**p")

        def eq(other):
            if other is o:
                return True
            if not (isinstance(other, SymObj) and "den" in other.attrs):
                if isinstance(other, (int, float, SV)) and kind(other) in "ir":     # a**0 is the number 1
                    b = self.c.bool("same_number")
                    for s in self.scales:
                        self.c.assume(lor(lnot(b), compare("==", den(s), other)))
                    return b
                if other is None or isinstance(other, (str, bool)):
                    return False
                raise Unsupported("comparison of a sympy expression")
            key = frozenset((id(o), id(other)))
            self.keep += [o, other]
            if key not in self.same:
                b = self.c.bool("same_expression")
                for s in self.scales:
                    self.c.assume(lor(lnot(b), compare("==", den(s), other.attrs["den"](s))))
                self.same[key] = b
            return self.same[key]

        def subs(sym, v=None):
            if v is None and isinstance(sym, dict) and len(sym) == 1:
                (sym, v), = sym.items()
            if sym is not self.symbol:
                raise Unsupported("substitution")
            if v is None:
                raise Unsupported("substitution")
            return den(v)
        sp = lambda n: ("special", f"__{n}__")
        o.attrs.update({sp("mul"): binary(lambda x, y: x * y, "*"), sp("truediv"): binary(lambda x, y: x / y, "/"), sp("add"): binary(lambda x, y: x + y, "+"),
                        sp("sub"): binary(lambda x, y: x - y, "-"), sp("rmul"): binary(lambda x, y: y * x, "*"), sp("rtruediv"): binary(lambda x, y: y / x, "/"),
                        sp("pow"): model(pw), sp("eq"): model(eq), sp("ne"): model(lambda x: lnot(eq(x))), "subs": model(subs),
                        "evalf": model(lambda *a, subs=None, **k: subs_of(subs))})

        def subs_of(d):
            if d is None:
                raise Unsupported("evalf")
            return subs(d)
        return o

    def install(self, job):
        job.overrides[(MOD, "a")] = self.symbol = self.expr(lambda s: s, "a")
        self.symbol.attrs["is_symbol"] = True
        job.assumed.add("sympy: products, quotients, powers and substitution of expressions denote those of their values; equal expressions denote the same")
        return self.symbol

    def free(self, name):
        """An arbitrary expression."""
        f = self.c.func(name, "r", "r")
        return self.expr(lambda s: SV(f(as_real(s))), name)

    def factor(self, name, expr=True, scale=True, at=None):
        """An arbitrary cosmo_factor; its parts are None where asked for."""
        c = self.c
        s = at if at is not None else c.real(name + "_scale") if scale else None
        if s is not None:
            c.assume(s > 0)
            self.scales.append(s)
        e = None
        if expr:
            e = self.free(name)
            if s is not None:
                c.assume(e.attrs["den"](s) > 0)
        return SymObj(objects().cosmo_factor, dict(expr=e, scale_factor=s), name=name)


def den(f):
    """What a factor scales by (None: nothing known)."""
    e, s = f.attrs["expr"], f.attrs["scale_factor"]
    return None if e is None or s is None else e.attrs["den"](s)


def parts(f):
    return (f.attrs["expr"], f.attrs["scale_factor"])


class Raised:
    def __init__(self, e):
        self.e = e


def attempt(f):
    try:
        return f()
    except Exception as e:
        return Raised(e)


def close(x, y, tol=1e-6):
    d = x - y
    return land(d <= tol * y, -d <= tol * y)


def factors(job, I, c):
    """Two arbitrary factors, in every combination of known and unknown parts."""
    A = Algebra(c)
    A.install(job)
    k = [c.choose(2) for _ in range(4)]
    x = A.factor("x", not k[0], not k[1])
    y = A.factor("y", not k[2], not k[3])
    return A, x, y


def same_scale(x, y):
    s, t = x.attrs["scale_factor"], y.attrs["scale_factor"]
    if s is None or t is None:
        return s is t
    return compare("==", s, t)


def known(x, y):
    return den(x) is not None and den(y) is not None


def binary_job(op):
    """x op y for arbitrary factors: defined only at one scale factor, with the denotation of op; operands untouched."""
    job = Job(f"cosmo_factor {op}", budget_s=60)

    def body(job, I, c):
        A, x, y = factors(job, I, c)
        before = parts(x) + parts(y)
        dx, dy = den(x), den(y)
        reflected = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__"}[op]
        if c.choose(2) and hasattr(objects().cosmo_factor, reflected):
            r = attempt(lambda: I.call(I.getattr(y, reflected), [x]))
        else:
            r = attempt(lambda: I.binop(OPS[op], x, y))
        if isinstance(r, Raised):
            if known(x, y):
                if op in "*/":
                    c.oblige(lnot(same_scale(x, y)), "raises only at different scale factors")
                else:
                    c.oblige(lnot(land(same_scale(x, y), I.cmp(ast.Eq(), x.attrs["expr"], y.attrs["expr"]))),
                             "raises only for different factors")
        else:
            if not isinstance(r, SymObj) or r.cls is not objects().cosmo_factor:
                c.oblige(False, "the result is a cosmo_factor")
                return
            c.oblige(same_scale(x, y), "combined only at one scale factor")
            c.oblige(same_scale(r, x), "the scale factor is unchanged")
            c.oblige((x.attrs["expr"] is None) == (y.attrs["expr"] is None), "a known and an unknown expression are not combined")
            if known(x, y):
                d = den(r)
                if d is None:
                    c.oblige(False, "the result's scaling is known")
                elif op == "*":
                    c.oblige(compare("==", d, dx * dy), "scales by the product")
                elif op == "/":
                    c.oblige(compare("==", d * dy, dx), "scales by the quotient")
                else:
                    c.oblige(close(dx, dy), "only factors of the same scaling are added or subtracted")
                    c.oblige(land(close(d, dx), close(d, dy)), "the scaling is kept")
            else:
                c.oblige(den(r) is None, "no scaling is made up")
        after = parts(x) + parts(y)
        c.oblige(all(p is q for p, q in zip(before, after)), "the operands are unchanged")
    return job.run(body)


def other_job():
    """Operands that are no cosmo_factor are refused, on either side."""
    job = Job("cosmo_factor with other operands", budget_s=60)

    def body(job, I, c):
        A = Algebra(c)
        A.install(job)
        x = A.factor("x")
        o = [2.0, 1, [1.0], None, "a"][c.choose(5)]
        op = OPS["+-*/"[c.choose(4)]]
        r = attempt(lambda: I.binop(op, x, o))
        c.oblige(isinstance(r, Raised), "refused")
        r = attempt(lambda: I.binop(op, o, x))
        c.oblige(isinstance(r, Raised), "refused (on the left)")
    return job.run(body)


def power_job():
    job = Job("cosmo_factor **", budget_s=60)

    def body(job, I, c):
        A = Algebra(c)
        A.install(job)
        x = A.factor("x", not c.choose(2), not c.choose(2))
        p = [c.real("p"), -1, 2, 0.5][c.choose(4)]
        before = parts(x)
        r = I.binop(ast.Pow, x, p)
        if not isinstance(r, SymObj) or r.cls is not objects().cosmo_factor:
            c.oblige(False, "the result is a cosmo_factor")
            return
        c.oblige(same_scale(r, x), "the scale factor is unchanged")
        d, dr = den(x), den(r)
        if d is None:
            c.oblige(dr is None, "no scaling is made up")
        elif dr is None:
            c.oblige(False, "the result's scaling is known")
        else:
            c.oblige(compare("==", dr, power(d, p)), "scales by the power")
        c.oblige(all(a is b for a, b in zip(before, parts(x))), "the operand is unchanged")
    return job.run(body)


def create_job():
    """create(s, p) scales by s^p; a_factor is the scaling, redshift 1/a - 1; both are None when unknown."""
    job = Job("cosmo_factor.create, a_factor, redshift", budget_s=60)

    def body(job, I, c):
        A = Algebra(c)
        A.install(job)
        cf = objects().cosmo_factor
        s, p = c.real("scale"), c.real("exponent")
        c.assume(s > 0)
        r = I.call(I.getattr(cf, "create"), [s, p])
        c.oblige(compare("==", r.attrs["scale_factor"], s), "at the scale factor given")
        c.oblige(compare("==", den(r), A.power(s, p)), "create gives a^exponent")
        c.oblige(compare("==", I.getattr(r, "a_factor"), A.power(s, p)), "a_factor is a^exponent")
        x = A.factor("x", not c.choose(2), not c.choose(2))
        af, z = I.getattr(x, "a_factor"), I.getattr(x, "redshift")
        if den(x) is None:
            c.oblige(af is None, "an unknown scaling is None")
        else:
            c.oblige(compare("==", af, den(x)) if af is not None else False, "a_factor is the scaling")
        if x.attrs["scale_factor"] is None:
            c.oblige(z is None, "an unknown redshift is None")
        else:
            c.oblige(compare("==", (z + 1) * x.attrs["scale_factor"], 1) if z is not None else False, "redshift")
    return job.run(body)


def compare_job():
    """== holds for equal scalings at one scale factor and only (to rounding, at every redshift) for those; != is its negation."""
    job = Job("cosmo_factor ==, !=", budget_s=60)

    def body(job, I, c):
        A, x, y = factors(job, I, c)
        e, n = I.cmp(ast.Eq(), x, y), I.cmp(ast.NotEq(), x, y)
        e, n = as_b(e), as_b(n)
        c.oblige(lor(land(e, lnot(n)), land(n, lnot(e))), "!= is the negation of ==")
        if known(x, y):
            dx, dy = den(x), den(y)
            c.oblige(lor(lnot(e), land(same_scale(x, y), close(dx, dy, 2e-5))), "equal only with the same scaling at the same scale factor")
            c.oblige(lor(e, lnot(land(same_scale(x, y), compare("==", dx, dy)))), "equal when the scaling and the scale factor are")
        elif (den(x) is None) != (den(y) is None):
            c.oblige(lnot(e), "a known and an unknown scaling differ")
    return job.run(body)


def as_b(x):
    return x if isinstance(x, SV) else SV(z3.BoolVal(bool(x)))


def order_job():
    job = Job("cosmo_factor ordering", budget_s=60)

    def body(job, I, c):
        A = Algebra(c)
        A.install(job)
        x, y = A.factor("x"), A.factor("y")
        dx, dy = den(x), den(y)
        for op, s in ((ast.Lt, "<"), (ast.LtE, "<="), (ast.Gt, ">"), (ast.GtE, ">=")):
            r = as_b(I.cmp(op(), x, y))
            w = as_b(compare(s, dx, dy))
            c.oblige(lor(land(r, w), land(lnot(r), lnot(w))), f"{s} follows the numerical scaling")
    return job.run(body)
