"""Cross-check of the generator with Python and numpy: `python3 checks/selftest.py` (not part of a check).

Every function below is interpreted on symbols of which only `symbol == value` is assumed, for many values; that the result is what
CPython and numpy compute is an obligation, so are the bounds the generator asks for. A wrong model of an operation is refuted, a
missing one is reported."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import z3

from pyvc.arrays import SArr, SSel, compress, from_concrete
from pyvc.interp import SIter, funcval
from pyvc.job import Job
from pyvc.solve import discharge
from pyvc.values import SV, Unsupported, compare, concrete, kind, land, term

# ---- programs: i, j integers; x, y reals; a, b arrays of integers; r real array; m boolean array (same length); n their length


def arith(i, j, x, y): return i + j, i - j, i * j, x + y, x - i, x * j, -x, +i, abs(i), abs(x)
def divide(i, j, x, y): return x / y if y != 0 else 0.0, i / j if j != 0 else 0.0
def floordiv(i, j): return (i // j, i % j) if j != 0 else (0, 0)
def realmod(x, y): return (x % (y + 0.125), x // (y + 0.125), (x + 0.0625) % -2.0)  if x != 0 else (0.0, 0.0, 0.0)
def powers(i, x): return i ** 2, x ** 3, x ** 0, x ** 1, (x ** -1 if x != 0 else 0.0), (x ** -2 if x != 0 else 0.0)
def compares(i, j, x, y): return i < j, i <= j, i == j, i != j, x > y, x >= i, 0 < i < j, i < x < y
def logic(i, j, x): return (i and j), (i or j), not i, (i > 0) and (x > 0), (i > 0) or (j > 0), (i > 0) & (j > 0), (i > 0) | (j > 0), (i > 0) ^ (j > 0)
def cond(i, j): return i if i > j else j, max(i, j), min(i, j), max(i, j, 0), min([i, j])
def truncation(x): return int(x), round(x), np.floor(x), np.ceil(x), np.rint(x), np.int32(x), np.int64(x)
def floats(i, x): return float(i), np.float64(i), float(x), bool(i), bool(x)


def loops(i, j):
    s = 0
    for k in range(5):
        if k == i:
            continue
        if k == j:
            break
        s += k
    else:
        s = -1
    w = 0
    while w < 4:
        w += 1
    return s, w


def nested(i, j):
    acc = []
    for p in range(3):
        for q in range(p, 3):
            if p + q == i:
                break
            acc.append(p * j + q)
    return sum(acc), len(acc)


def handled(i):
    try:
        if i > 2:
            raise ValueError("a")
        if i > 0:
            raise KeyError("b")
        r = 1
    except ValueError:
        r = 2
    except (KeyError, IndexError) as e:
        r = 3
    else:
        r += 10
    finally:
        z = 5
    return r + z


def closures(i, j):
    def f(x, y=j, *a, **k):
        return x + y + sum(a) + k.get("z", 0)
    g = lambda x: f(x, z=i)
    return f(i), f(1, 2, 3, 4), g(5)


def comps(i, j):
    l = [k * i for k in range(4) if k != j]
    d = {k: k + i for k in range(3)}
    return sum(l), d[2], len([0 for k in range(5) if k > 2]), any(k == i for k in range(3)), all(k <= i for k in range(3))


def unpack(i, j):
    a, *b = [i, j, i + j]
    (p, q), r = (i, j), b[-1]
    p, q = q, p
    return a, b[0], p, q, r


def strings(i):
    s = "a" if i > 0 else "b"
    return 1 if s == "a" else 0, len("abc"), 1 if "b" in "abc" else 0


def items(a, i, n): return a[0], a[-1], a[n - 1], a[i % n]
def slices(a, i, n): return a[1:], a[:-1], a[1:3], a[i % n:], a[: i % n], a[-2:]
def arrayops(a, b, x): return a + b, a - b, a * 2, a * x, -a, a + 1, 1 - a, a ** 2
def realops(r, x): return r + x, r * r, r - 1.5, np.floor(r), np.ceil(r), np.abs(r), r / 2.0, np.square(r)
def bools(a, b, m): return a < b, a == b, (a > 0) & m, (a > 0) | m, ~m, np.logical_and(a > 0, m), np.logical_not(m)
def reductions(a, m, r): return a.sum(), np.sum(a), a.any(), a.all(), np.any(m), np.all(m), a.max(), a.min(), np.sum(r)
def selections(a, m, r): return a[m], r[m], a[~m], a[m].size, np.where(m, a, -a)
def positions(m): return np.where(m)[0], np.nonzero(m)[0], np.flatnonzero(m)


def index_arrays(a, b, n):
    k = b % n
    return a[k]


def minmax(a, b): return np.minimum(a, b), np.maximum(a, b), np.maximum(a, 0), np.minimum(1, b)
def cumulative(a): return np.cumsum(a), np.diff(a)
def joined(a, b): return np.concatenate([a, b]), np.concatenate((a[:1], b[1:]))
def stacked(a, b): return np.vstack([a, b]), np.stack([a, b]), np.vstack([a, b]).T, np.vstack([a, b])[1], np.vstack([a, b])[:, 0]
def made(a, n, i): return np.zeros(n), np.ones(n, dtype=int), np.arange(n), np.full(3, i), np.zeros_like(a), np.ones_like(a), np.arange(1, n)
def shapes(a, b, n): return a.size, len(a), a.shape[0], a.ndim, np.vstack([a, b]).shape[1], np.size(a), np.shape(a)[0]


def stores(a, i, n):
    r = np.zeros(n, dtype=int)
    r[0] = i
    r[1:] = a[1:]
    r[i % n] += 7
    r[-1] -= 1
    return r, a


def mask_stores(a, m, i):
    r = a.copy()
    r[m] = i
    q = a.copy()
    q[a > 0] += 1
    return r, q, a


def views(a, i):
    b = a.copy()
    v = b[1:]
    v[0] = i
    return b, v, a


def augmented(a, b):
    c = a.copy()
    d = c
    c += b
    c *= 2
    return c, d, a


def rebound(a, b):
    c = a
    c = c + b
    return c, a


def two_d(a, b, i):
    z = np.zeros((2, 3))
    z[0, 1] = i
    z[1] = 5
    z[:, 2] = i + 1
    return z, z.T, z[:, 1:], z[1, :], z.shape[0]


def loop_store(a, n):
    r = np.empty(3, dtype=int)
    for k in range(3):
        r[k] = a[n - 1 - k] * k
    return r


def broadcasting(a, i, x): return np.arange(3)[:, None] + np.arange(2), np.array([i, i + 1]) * np.array([[1], [2]]), a[None, :], np.array([x, i])
def dots(x, y): return np.dot(np.array([x, y]), np.array([y, 2.0])), np.array([[x, 1.0], [0.0, y]]) @ np.array([y, x]), np.cross(np.array([x, y, 1.0]), np.array([y, 2.0, x]))
def roots(x): return (np.sqrt(x * x), np.sqrt(x * x + 1.0) ** 2)
def argsorts(a): return a[np.argsort(a)], np.sort(a)
def lists(a, i):
    l = []
    for k in range(3):
        l.append(a[k] + i)
    l[1] = 0
    l += [i]
    l.insert(0, 4)
    return l, l[1:3], l[-1], len(l), l.pop(), list(reversed(l)), i in [1, 2, 3]


def ranks(a, b, m, x): return np.where(a > 0, a, b), np.where(m, x, 1.0), np.where(m, 1, 0).sum(), np.abs(a), np.divide(x, 2.0), np.power(a, 2), np.mod(a, 3), np.fabs(x)
def squeezed(a, i): return np.array([i])[0], np.asarray(a), a[:, None].shape[1], a.reshape(-1)
def split_rows(a, b): return np.vstack([a, b]).T[1], np.array([a[0], b[0]]), np.eye(3), np.identity(2), np.prod(np.array([1, 2, 3]))
def conversions(a, r, m): return a.astype(float), r.astype(int), m.astype(int), a.astype(bool), m.astype(bool)
def strided(a): return range(5)[2], list(range(1, 7, 2)), list(range(3, 0, -1)), sum(range(4))
def early(i, j):
    for k in range(3):
        for q in range(2):
            if k * q == i:
                return k, q
    return -1, j


def defaults(i, a=3, *, b=2): return a + b + i
def shadow(i):
    k = 9
    l = [k for k in range(3)]
    return k, l[-1], (lambda k: k + i)(1)


def chained(i, j):
    k = l = i
    k += 1
    x = y = [i]
    x.append(j)
    return k, l, len(y), y[-1], (z := i + 1) + z


def deleted(i):
    d = {"a": i, "b": 2}
    del d["a"]
    l = [1, i, 3]
    del l[1]
    return "a" in d, len(l), l[1]


def dicts(i, j):
    d = {"a": i, "b": j}
    d.update(c=i + j)
    e = dict(d)
    e["a"] = 0
    x = e.pop("b")
    return d["a"], e["a"], x, d.get("z", 3), len(e), sum(d.values()), [k for k in d][2] == "c", "b" in e, d.setdefault("q", 9)


def sets(): return len({1, 2} & {2, 3}), len({1, 2} | {3}), 2 in {1, 2}
def filtered(a, n): return [v for v in a if v > 0]
def mapped(a, n): return [v + 1 for v in a], list(map(lambda v: v * 2, [a[0], a[1]]))


PROGRAMS = [v for k, v in list(globals().items()) if callable(v) and getattr(v, "__module__", "") == __name__ and not k.startswith("_") and k not in ("compress",)]
PROGRAMS = [f for f in PROGRAMS if hasattr(f, "__code__")]


# ---- comparison


def same(c, got, want, what):
    if isinstance(got, SSel):
        got = compress(got)
    if isinstance(want, (tuple, list)) and not isinstance(got, SArr):
        seq = list(got) if not isinstance(got, SIter) else None
        if seq is None:
            got = SArr((got.n,), got.elem, "i", "list")
        else:
            c.oblige(len(seq) == len(want), what + ": length")
            for k, (g, w) in enumerate(zip(seq, want)):
                same(c, g, w, f"{what}[{k}]")
            return
    if isinstance(want, (np.ndarray, list)):
        want = np.asarray(want)
        if not isinstance(got, SArr):
            got = from_concrete(got)
        c.oblige(got.ndim == want.ndim, what + ": dimensions")
        for d, s in enumerate(want.shape):
            c.oblige(compare("==", got.shape[d], s), what + ": shape")
        for ix in np.ndindex(*want.shape):
            same(c, got.get(*ix), want[ix].item(), f"{what}{list(ix)}")
        return
    if isinstance(want, np.generic):
        want = want.item()
    if isinstance(want, bool):
        t = got if kind(got) == "b" else compare("!=", got, 0)
        c.oblige(t if want else (~t if isinstance(t, SV) else not t), what)
    else:
        if isinstance(got, np.generic):
            got = got.item()
        if isinstance(want, float) and want != round(want * 1024) / 1024:
            c.oblige(land(compare("<", got, want + 1e-9), compare(">", got, want - 1e-9)), what)
        else:
            c.oblige(compare("==", got, want), what)


def job(f, vals):
    j = Job(f"{f.__name__}", budget_s=60)

    def body(j, I, c):
        given = {}
        names = f.__code__.co_varnames[: f.__code__.co_argcount]
        for k in names:
            v = vals[k]
            if isinstance(v, np.ndarray):
                ty = {"i": "i", "f": "r", "b": "b"}[v.dtype.kind]
                g = c.func(k, "i", ty)
                for p, e in enumerate(v):
                    e = e.item()
                    c.assume(SV(g(p) == e) if ty == "i" else SV(g(p) == z3.RealVal(repr(e))) if ty == "r" else SV(g(p) == e))
                given[k] = SArr((vals["n"],) if "n" not in names else (given.get("n", vals["n"]),), lambda p, g=g: SV(g(term(p))), ty, k)
            else:
                s = c.int(k) if isinstance(v, int) else c.real(k)
                c.assume(SV(s.t == (v if isinstance(v, int) else z3.RealVal(repr(v)))))
                given[k] = s
        if "n" in given:        # the length as a symbol too
            for k, v in given.items():
                if isinstance(v, SArr):
                    v.shape = (given["n"],)
        import copy
        try:
            want = f(**{k: copy.copy(vals[k]) for k in names})
        except Exception as e:
            want = e
        try:
            got = I.call(funcval(f), [given[k] for k in names], {})
        except Unsupported:
            raise
        except (ValueError, IndexError, KeyError, ZeroDivisionError) as e:
            c.oblige(type(e) is type(want), "raises")
            return
        c.oblige(not isinstance(want, Exception), "does not raise")
        same(c, got, want, f.__name__)
        c.oblige(False, "contradiction")
    return j.run(body)


def main():
    rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1")))
    bad = 0
    only = sys.argv[1:]
    for f in PROGRAMS:
        if only and f.__name__ not in only:
            continue
        counts, missing = {}, set()
        for t in range(6):
            n = int(rng.integers(3, 5))
            vals = dict(i=int(rng.integers(-3, 5)), j=int(rng.integers(-3, 4)), x=float(rng.integers(-9, 10)) / 4, y=float(rng.integers(-9, 10)) / 2,
                        a=rng.integers(-3, 4, n), b=rng.integers(-3, 4, n), r=rng.integers(-9, 9, n) / 4, m=rng.random(n) < 0.5, n=n)
            try:
                j = job(f, vals)
            except Unsupported as e:
                missing.add(str(e))
                continue
            discharge(j.obligations, slow_s=10, workers=6)
            for o in j.obligations:
                if o.name == "contradiction":
                    if o.status == "proved":
                        bad += 1
                        print("  CONTRADICTION", o.where)
                    continue
                counts[o.status] = counts.get(o.status, 0) + 1
                if o.status == "refuted":
                    bad += 1
                    print("  REFUTED", o.name, o.where, {k: v for k, v in vals.items() if k in f.__code__.co_varnames})
        print(f"{f.__name__}: {counts}" + (f" no model: {missing}" if missing else ""))
    print("refuted:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
