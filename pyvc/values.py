"""Symbolic scalars and the verification context (path condition, decisions, obligations)."""
from fractions import Fraction
import time
import z3

z3.set_param("memory_max_size", 6000)


class Unsupported(BaseException):
    """The construct is outside the verified subset (never reported as a violation)."""


class PathEnd(BaseException):
    """The current path is finished (its obligations have been emitted)."""


class Infeasible(PathEnd):
    pass


class CannotAttach(Unsupported):
    """A contract could not be attached to the code (renamed, restructured)."""


CTX = None  # current context


def ctx():
    if CTX is None:
        raise RuntimeError("no verification context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def _num(x):
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        if isinstance(x, np.float32):
            fr = Fraction(str(x))
        else:
            fr = Fraction(repr(f))
        return z3.RealVal(fr)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return None


class SV:
    """A symbolic scalar: z3 Int, Real or Bool term."""
    __slots__ = ("t", "k", "ip")
    __array_ufunc__ = None   # numpy arrays/scalars defer to us

    def __init__(self, t, ip=None):
        self.t = t
        s = t.sort()
        self.k = "i" if s == z3.IntSort() else "r" if s == z3.RealSort() else "b" if s == z3.BoolSort() else "?"
        self.ip = ip  # Int term equal to this real, when known integral

    def __repr__(self):
        return f"SV({self.t})"

    def __hash__(self):
        return self.t.hash()

    # truth value: branch the path
    def __bool__(self):
        return ctx().branch(as_bool(self))

    def __index__(self):
        v = concrete(self)
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic value used where a concrete index is needed")

    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o)
    def __rmul__(self, o): return arith("*", o, self)
    def __truediv__(self, o): return arith("/", self, o)
    def __rtruediv__(self, o): return arith("/", o, self)
    def __floordiv__(self, o): return arith("//", self, o)
    def __rfloordiv__(self, o): return arith("//", o, self)
    def __mod__(self, o): return arith("%", self, o)
    def __rmod__(self, o): return arith("%", o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return arith("-", 0, self)
    def __pos__(self): return self
    def __abs__(self): return ite(self < 0, -self, self)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __and__(self, o): return logic("and", self, o)
    def __rand__(self, o): return logic("and", o, self)
    def __or__(self, o): return logic("or", self, o)
    def __ror__(self, o): return logic("or", o, self)
    def __xor__(self, o): return logic("xor", self, o)
    def __rxor__(self, o): return logic("xor", o, self)
    def __invert__(self):
        if self.k == "b":
            return mk(z3.Not(self.t))
        raise Unsupported("~ on a symbolic number")


def is_sym(x):
    return isinstance(x, SV)


def mk(t, ip=None):
    if isinstance(t, (SV, bool)):
        return t
    t = z3.simplify(t) if z3.is_app(t) and t.num_args() and t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) and all(z3.is_true(c) or z3.is_false(c) for c in t.children()) else t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SV(t, ip)


def term(x):
    if isinstance(x, SV):
        return x.t
    if z3.is_expr(x):
        return x
    r = _num(x)
    if r is None:
        raise Unsupported(f"no term for {type(x).__name__}")
    return r


def as_real(x):
    t = term(x)
    if t.sort() == z3.IntSort():
        return z3.RealVal(t.as_long()) if z3.is_int_value(t) else z3.ToReal(t)
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def as_int(x):
    t = term(x)
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def as_bool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    t = term(x)
    if t.sort() == z3.BoolSort():
        return t
    return t != 0


def kind(x):
    import numpy as np
    if isinstance(x, SV):
        return x.k
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "r"
    return "?"


def canon(x):
    """Machine floats are treated as the decimal number they are written as."""
    import numpy as np
    if isinstance(x, np.floating):
        return float(str(x))
    return x


def concrete(x):
    """Python value of a constant term, else the value itself."""
    if isinstance(x, SV):
        t = x.t
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return float(f)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return x


def integral(x):
    """Int term for a value known to be integral, else None."""
    if isinstance(x, SV):
        if x.k == "i":
            return x.t
        if x.k == "b":
            return as_int(x)
        return x.ip
    import numpy as np
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return z3.IntVal(int(x))
    return None


def arith(op, a, b):
    from .arrays import SArr, SSel, elementwise
    if isinstance(a, (SArr, SSel)) or isinstance(b, (SArr, SSel)):
        return elementwise(lambda x, y: arith(op, x, y), a, b)
    if kind(a) == "?" or kind(b) == "?":
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        import operator
        return {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
                "//": operator.floordiv, "%": operator.mod}[op](a, b)
    real = kind(a) == "r" or kind(b) == "r" or op == "/"
    if op in "+-*":
        if not is_sym(b):
            if op == "*" and b == 1 and not (kind(b) == "r" and kind(a) != "r"):
                return a
            if op in "+-" and b == 0 and kind(a) == ("r" if real else "i"):
                return a
        if not is_sym(a):
            if op == "*" and a == 1 and not (kind(a) == "r" and kind(b) != "r"):
                return b
            if op == "+" and a == 0 and kind(b) == ("r" if real else "i"):
                return b
    if real:
        ta, tb = as_real(a), as_real(b)
        ip = None
        ia, ib = integral(a), integral(b)
        if op == "+":
            if ia is not None and ib is not None:
                ip = ia + ib
            return SV(ta + tb, ip)
        if op == "-":
            if ia is not None and ib is not None:
                ip = ia - ib
            return SV(ta - tb, ip)
        if op == "*":
            if ia is not None and ib is not None:
                ip = ia * ib
            return SV(ta * tb, ip)
        if op == "/":
            c = ctx()
            cb = concrete(SV(tb))
            if not is_sym(cb):
                if cb == 0:
                    raise ZeroDivisionError("division by zero")
                return SV(ta / tb)
            if c.check_div:
                c.oblige(tb != 0, "division by a non-zero value", kind="safety")
            return SV(ta * c.inverse(tb))
        if op == "%":
            return ctx().float_mod(ta, tb)
        if op == "//":
            if not is_sym(b) and b > 0 or True:
                q = ta / tb if not is_sym(b) else ta * ctx().inverse(tb)
                n = ctx().floor_of(q)
                return SV(z3.ToReal(n), n)
    ta, tb = as_int(a), as_int(b)
    if op == "+":
        return SV(ta + tb)
    if op == "-":
        return SV(ta - tb)
    if op == "*":
        return SV(ta * tb)
    c = ctx()
    if z3.is_int_value(tb):
        d = tb.as_long()
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        pos = d > 0
    else:
        if c.check_div:
            c.oblige(tb != 0, "division by a non-zero value", kind="safety")
        pos = True if c.entails(tb > 0) else False if c.entails(tb < 0) else None
    if op == "//":
        if pos is True:
            if z3.is_int_value(tb) or not c.abstract_div:
                return SV(ta / tb)
            return SV(c.int_div(ta, tb))
        if pos is False:
            return SV((-ta) / (-tb))
        return SV(z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    if op == "%":
        if pos is True:
            if z3.is_int_value(tb) or not c.abstract_div:
                return SV(ta % tb)
            return SV(ta - tb * c.int_div(ta, tb))
        if pos is False:
            return SV(-((-ta) % (-tb)))
        return SV(z3.If(tb > 0, ta % tb, -((-ta) % (-tb))))
    raise Unsupported(op)


def power(a, b):
    from .arrays import SArr, SSel, elementwise
    if isinstance(a, (SArr, SSel)) or isinstance(b, (SArr, SSel)):
        return elementwise(power, a, b)
    if not is_sym(b):
        bb = float(b)
        if bb.is_integer() and abs(bb) <= 8:
            n = int(abs(bb))
            if n == 0:
                return 1 if kind(a) == "i" else 1.0
            r = a
            for _ in range(n - 1):
                r = r * a
            return r if bb > 0 else 1.0 / r
        if bb == 0.5:
            return sqrt(a)
    return ctx().power_hook(a, b)


def sqrt(x):
    return ctx().sqrt_of(x)


def compare(op, a, b):
    from .arrays import SArr, SSel, elementwise
    if isinstance(a, (SArr, SSel)) or isinstance(b, (SArr, SSel)):
        return elementwise(lambda x, y: compare(op, x, y), a, b)
    if b is None or a is None or kind(a) == "?" or kind(b) == "?":
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        import operator
        return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
                "==": operator.eq, "!=": operator.ne}[op](a, b)
    ia, ib = integral(a), integral(b)
    if kind(a) == "b" and kind(b) == "b" and op in ("==", "!="):
        t = as_bool(a) == as_bool(b)
        return mk(z3.Not(t) if op == "!=" else t)
    if ia is not None and ib is not None:
        ta, tb = ia, ib
    elif kind(a) == "r" or kind(b) == "r":
        ta, tb = as_real(a), as_real(b)
    else:
        ta, tb = as_int(a), as_int(b)
    t = {"<": lambda: ta < tb, "<=": lambda: ta <= tb, ">": lambda: ta > tb, ">=": lambda: ta >= tb,
         "==": lambda: ta == tb, "!=": lambda: ta != tb}[op]()
    if ta.eq(tb):
        return op in ("<=", ">=", "==")
    s = t
    if not _has_var(ta) and not _has_var(tb):
        s = z3.simplify(t)
    return mk(s)


def _has_var(t):
    return not (z3.is_int_value(t) or z3.is_rational_value(t))


def logic(op, a, b):
    from .arrays import SArr, SSel, elementwise
    if isinstance(a, (SArr, SSel)) or isinstance(b, (SArr, SSel)):
        return elementwise(lambda x, y: logic(op, x, y), a, b)
    if kind(a) != "b" or kind(b) != "b":
        raise Unsupported("bitwise operation")
    ta, tb = as_bool(a), as_bool(b)
    return mk(z3.And(ta, tb) if op == "and" else z3.Xor(ta, tb) if op == "xor" else z3.Or(ta, tb))


def lnot(a):
    from .arrays import SArr, SSel, elementwise
    if isinstance(a, (SArr, SSel)):
        return elementwise(lnot, a)
    if not is_sym(a):
        return not a
    return mk(z3.Not(as_bool(a)))


def land(*xs):
    return mk(z3.And(*[as_bool(x) for x in xs])) if xs else True


def lor(*xs):
    return mk(z3.Or(*[as_bool(x) for x in xs])) if xs else False


def implies(a, b):
    return mk(z3.Implies(as_bool(a), as_bool(b)))


def ite(c, a, b):
    c = concrete(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ka, kb = kind(a), kind(b)
    if ka == "?" or kb == "?":
        return a if bool(c) else b     # branch the path
    tc = as_bool(c)
    if ka == "b" and kb == "b":
        return mk(z3.If(tc, as_bool(a), as_bool(b)))
    if ka == "r" or kb == "r":
        ia, ib = integral(a), integral(b)
        ip = z3.If(tc, ia, ib) if ia is not None and ib is not None else None
        return SV(z3.If(tc, as_real(a), as_real(b)), ip)
    return SV(z3.If(tc, as_int(a), as_int(b)))


def smin(a, b):
    return ite(compare("<=", a, b), a, b)


def smax(a, b):
    return ite(compare(">=", a, b), a, b)


def trunc(x):
    """int(x): truncation towards zero."""
    if not is_sym(x):
        return int(x)
    i = integral(x)
    if i is not None:
        return SV(i)
    c = ctx()
    t = x.t
    if c.entails(t >= 0):
        return SV(c.floor_of(t))
    if c.entails(t <= 0):
        return SV(-c.floor_of(-t))
    return ite(SV(t >= 0), SV(c.floor_of(t)), SV(-c.floor_of(-t)))


def floor(x):
    i = integral(x)
    if i is not None:
        return SV(i)
    if not is_sym(x):
        import math
        return math.floor(x)
    return SV(ctx().floor_of(x.t))


def rint(x):
    """The nearest integer, ties to the even one."""
    i = integral(x)
    if i is not None:
        return SV(i)
    if not is_sym(x):
        return round(x)
    f = floor(x + 0.5)
    tie = z3.And(x.t + 0.5 == z3.ToReal(f.t), f.t % 2 == 1)
    return ite(SV(tie), f - 1, f)


def ceil(x):
    i = integral(x)
    if i is not None:
        return SV(i)
    if not is_sym(x):
        import math
        return math.ceil(x)
    return SV(-ctx().floor_of(-x.t))


class Obligation:
    def __init__(self, name, hyps, goal, kind, where, fn):
        self.name, self.hyps, self.goal, self.kind, self.where, self.fn = name, hyps, goal, kind, where, fn
        self.status = "open"
        self.backend = None
        self.time = 0.0
        self.model = None
        self.reason = ""

    def ident(self):
        return f"{self.fn} :: {self.name}" + (f" @ {self.where}" if self.where else "")


class Ctx:
    """One path of one function under verification."""

    def __init__(self, job, decisions):
        self.job = job
        self.pc = []
        self.decisions = list(decisions)
        self.pos = 0
        self.alternatives = []
        self.n = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", job.feas_ms)
        self.memo = {}
        self.sqrts = []
        self.mods = []
        self.linalg = []
        self.angles = {}
        self.floors = []
        self.check_div = False
        self.abstract_div = False
        self.loops = []        # stack of generic loop frames
        self.arrays = {}
        self.spec = False
        self.local_objs = set()
        self.keep = []         # keep python references of memo'd terms alive
        self.where = ""
        self.mode = job.mode   # 'prove' or 'bounded'
        self.power_rule = None
        self.bindings = {}

    # ---- terms
    def fresh_term(self, name, sort):
        self.n += 1
        return z3.Const(f"{name}!{self.n}", sort)

    def int(self, name):
        return SV(self.fresh_term(name, z3.IntSort()))

    def real(self, name):
        return SV(self.fresh_term(name, z3.RealSort()))

    def bool(self, name):
        return SV(self.fresh_term(name, z3.BoolSort()))

    def func(self, name, *sorts):
        self.n += 1
        m = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}
        return z3.Function(f"{name}!{self.n}", *[m.get(s, s) if isinstance(s, str) else s for s in sorts])

    def _memo(self, tag, t, make):
        key = (tag, t.get_id())
        if key not in self.memo:
            self.keep.append(t)
            self.memo[key] = make()
        return self.memo[key]

    def floor_of(self, t):
        t = z3.simplify(t) if False else t
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return z3.IntVal(f.numerator // f.denominator)

        def make():
            n = self.fresh_term("fl", z3.IntSort())
            self.assume(z3.And(z3.ToReal(n) <= t, t < z3.ToReal(n) + 1))
            self.floors.append((t, n))
            return n
        return self._memo("floor", t, make)

    def inverse(self, t):
        """1/t for t != 0 (t == 0 leaves it unconstrained)."""
        def make():
            r = self.fresh_term("inv", z3.RealSort())
            self.assume(z3.Implies(t != 0, r * t == 1))
            self.assume(z3.Implies(t > 0, r > 0))
            return r
        return self._memo("inv", t, make)

    def int_div(self, a, b):
        def make():
            q = self.fresh_term("q", z3.IntSort())
            r = self.fresh_term("rem", z3.IntSort())
            self.assume(z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b)))
            return q
        key = ("div", a.get_id(), b.get_id())
        if key not in self.memo:
            self.keep += [a, b]
            self.memo[key] = make()
        return self.memo[key]

    def sqrt_of(self, x):
        t = as_real(x)

        def make():
            r = self.fresh_term("sqrt", z3.RealSort())
            self.assume(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
            self.sqrts.append((t, r))
            return SV(r)
        return self._memo("sqrt", t, make)

    def float_mod(self, a, m):
        """a % m on floats, m > 0: the mathematical remainder rounded, so the upper end is attainable."""
        def make():
            r = self.fresh_term("fmod", z3.RealSort())
            k = self.fresh_term("fmodk", z3.IntSort())
            self.assume(z3.Implies(m > 0, z3.And(r >= 0, r <= m, a == m * z3.ToReal(k) + r)))
            self.assume(z3.Implies(m < 0, z3.And(r <= 0, r >= m, a == m * z3.ToReal(k) + r)))
            self.mods.append((a, m, r, k))
            return SV(r)
        key = ("fmod", a.get_id(), m.get_id())
        if key not in self.memo:
            self.keep += [a, m]
            self.memo[key] = make()
        return self.memo[key]

    def power_hook(self, a, b):
        if self.power_rule is None:
            raise Unsupported("symbolic power")
        return self.power_rule(a, b)

    # ---- logic
    def assume(self, f):
        if isinstance(f, bool):
            if f:
                return
            raise Infeasible()
        f = as_bool(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)
        self.solver.add(f)

    def entails(self, f, ms=None):
        f = as_bool(f)
        if z3.is_true(f):
            return True
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(f))
        r = self.solver.check()
        self.solver.pop()
        self.job.feas_time += time.time() - t0
        return r == z3.unsat

    def unique(self, x):
        """The value of an integer term if the assumptions leave only one, else the term."""
        x = concrete(x)
        if not isinstance(x, SV) or x.k != "i":
            return x
        if self.solver.check() != z3.sat:
            return x
        v = self.solver.model().eval(x.t, model_completion=True)
        return v.as_long() if z3.is_int_value(v) and self.entails(x.t == v) else x

    def feasible(self, f):
        t0 = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.job.feas_time += time.time() - t0
        return r != z3.unsat

    def _decide(self, n_options, feas):
        """Replay or make a decision among options 0..n-1 (feas(i) says whether option i is feasible)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        ok = [i for i in range(n_options) if feas(i)]
        if not ok:
            raise Infeasible()
        base = self.decisions[: self.pos]
        for alt in ok[1:]:
            self.alternatives.append(base + [alt])
        self.decisions = base + [ok[0]]
        self.pos += 1
        return ok[0]

    def branch(self, cond):
        cond = as_bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        opts = [cond, z3.Not(cond)]
        d = self._decide(2, lambda i: self.feasible(opts[i]))
        self.assume(opts[d])
        self.job.check_budget()
        return d == 0

    def choose(self, n):
        self.job.check_budget()
        return self._decide(n, lambda i: True)

    def oblige(self, goal, name, kind="post", hyps=()):
        """Emit a proof obligation; afterwards it is assumed on this path."""
        g = as_bool(goal)
        ob = Obligation(name, list(self.pc) + [as_bool(h) for h in hyps], g, kind, self.where, self.job.name)
        self.job.add(ob)
        if not hyps:
            if z3.is_false(g):
                raise PathEnd()
            self.assume(g)
        return ob
