"""C06 at run time: random expressions in the algebra of cosmo_factor against exact rational exponents."""
from fractions import Fraction

import numpy as np

from vlib.execlib import Violation, case, check


def cls():
    from swiftsimio import objects
    return objects.cosmo_factor, objects.a


SC = [1.0, 0.5, 0.1, 0.01, 0.3, 1.0 / 3.0, 0.9999, 0.001]


def val(scale, p):
    return scale ** float(p)


@case(quick=150, thorough=3000)
def expressions_denote_powers(rng, env):
    cf, a = cls()
    scale = float(rng.choice(SC))
    n = int(rng.integers(1, 7))
    p = int(rng.integers(-6, 7))
    x = cf(a ** p, scale) if rng.random() < 0.5 else cf.create(scale, p)
    p = Fraction(p)
    hist = [f"a**{p}"]
    check(np.isclose(x.a_factor, val(scale, p), rtol=1e-9, atol=0), f"a**{p} at {scale} scales by {x.a_factor}")
    for _ in range(n):
        op = str(rng.choice(["mul", "div", "pow", "inv", "rdiv", "add", "sub"]))
        q = Fraction(int(rng.integers(-6, 7)), int(rng.choice([1, 1, 2, 3])))
        y = cf(a ** (q.numerator if q.denominator == 1 else float(q)), scale)
        before = (str(x), str(y))
        x0 = x
        if op == "mul":
            x, p2 = x * y, p + q
        elif op == "div":
            x, p2 = (x / y if rng.random() < 0.7 or not hasattr(x, "__rtruediv__") else y.__rtruediv__(x)), p - q
        elif op == "rdiv":
            x, p2 = y / x, q - p
        elif op == "pow":
            e = int(rng.integers(-3, 4)) if rng.random() < 0.5 else \
                float(rng.choice([0.5, 1 / 3, -2 / 3, 0.25, 1.125, 1e-3, 0.005, rng.uniform(-2, 2)]))
            if abs(p * Fraction(e)) > 12:
                continue
            x, p2 = x ** e, p * Fraction(e)
        elif op == "inv":
            x, p2 = x ** -1, -p
        elif op == "add":
            x, p2 = x + cf(x.expr, scale), p
        else:
            x, p2 = x - cf(x.expr, scale), p
        hist.append(f"{op} {q}")
        check((str(x0), str(y)) == before, f"operands changed by {op}")
        if abs(p2) > 40:
            return
        p = p2
        check(x.scale_factor == scale, f"scale factor {x.scale_factor} instead of {scale} after {hist}")
        check(np.isclose(x.a_factor, val(scale, p), rtol=1e-9, atol=0), f"{hist} at a={scale}: {x.a_factor} instead of {val(scale, p)} (a**{p})")
        check(np.isclose(x.redshift, 1 / scale - 1, rtol=1e-12), "redshift")
    env.note(scale=scale, history=hist)


@case(quick=200, thorough=4000)
def comparison(rng, env):
    cf, a = cls()
    s1 = float(rng.choice(SC))
    s2 = s1 if rng.random() < 0.7 else float(rng.choice(SC))
    p, q = int(rng.integers(-8, 9)), int(rng.integers(-8, 9))
    if rng.random() < 0.3:
        q = p
    if env.k % 8 == 0:      # no scaling, possibly at different scale factors
        p = q = 0
        s2 = s1 if rng.random() < 0.3 else float(rng.choice(SC))
    x, y = cf(a ** p, s1), cf(a ** q, s2)
    env.note(p=p, q=q, scales=[s1, s2])
    same = s1 == s2 and np.isclose(val(s1, p), val(s2, q), rtol=1e-6, atol=0)
    check((x == y) is bool(same), f"a**{p} at {s1} == a**{q} at {s2} is {x == y}")
    check((x != y) is not bool(same), "!= is not the negation of ==")
    if not np.isclose(val(s1, p), val(s2, q), rtol=1e-9, atol=0):
        check((x < y) == (val(s1, p) < val(s2, q)) and (x > y) == (val(s1, p) > val(s2, q)), f"ordering of {x} and {y}")
        check((x <= y) == (val(s1, p) <= val(s2, q)) and (x >= y) == (val(s1, p) >= val(s2, q)), f"ordering of {x} and {y}")
    else:
        check(x <= cf(a ** p, s1) and x >= cf(a ** p, s1) and not x < cf(a ** p, s1) and not x > cf(a ** p, s1), "reflexive")


@case(quick=200, thorough=4000)
def undefined_combinations_raise(rng, env):
    cf, a = cls()
    kind = ["scale", "expr", "none", "other", "nullscale"][env.k % 5]
    op = str(rng.choice(["+", "-"] if kind == "expr" else ["+", "-", "*", "/"]))
    s = float(rng.choice(SC))
    p = int(rng.integers(-5, 6))
    x = cf(a ** p, s)
    if kind == "scale":
        y = cf(a ** (p if rng.random() < 0.5 else p + 1), s * float(rng.choice([0.5, 1.5, 1.0000001, 1 + 1e-12])))
    elif kind == "expr":
        y = cf(a ** (p + int(rng.choice([-2, -1, 1, 2]))), s)
    elif kind == "none":
        y = cf(None, s)
    elif kind == "nullscale":
        y = cf(None, None)
    else:
        y = [1.0, 2, None, "a"][int(rng.integers(0, 4))]
    if rng.random() < 0.5 and kind != "other":
        x, y = y, x
    env.note(kind=kind, op=op, x=str(x), y=str(y))
    f = {"+": lambda u, v: u + v, "-": lambda u, v: u - v, "*": lambda u, v: u * v, "/": lambda u, v: u / v}[op]
    try:
        r = f(x, y)
    except Exception:
        return
    raise Violation(f"{x} {op} {y} gave {r}")
