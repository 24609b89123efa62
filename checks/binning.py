"""Contracts of the binning of a power spectrum (C20).

The transform is an uninterpreted complex function of the mode; numpy.histogram gives, for every bin, the sum over the modes whose argument
lies in the bin (its contract): such a sum is a symbol that remembers its bins, its argument and its weight. That a returned value is the mean of
a quantity over exactly the modes of a bin is: the sum has these bins, its argument is the wavenumber of an arbitrary mode, and the returned
value times the number of modes is linear in the sum, with coefficient times weight the quantity of that mode."""
import numpy as np
import z3

from checks.handles import Rec, mod, model
from checks.pictures import V, Data, World, record
from pyvc.arrays import SArr, elementwise
from pyvc.interp import SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, Unsupported, as_real, compare, concrete, is_sym, ite, kind, land, term

PS = V + "power_spectrum"


class Modes:
    """Class of a transform."""


class Binning(World):
    def __init__(self, job, I, c, n):
        super().__init__(job, I, c)
        self.n, self.sums, self.transforms = n, [], []
        job.assumed.add("contract:numpy.histogram sums the weights of the entries in each bin; numpy.fft.fftfreq, numpy.meshgrid")
        job.assumed.add("contract:scipy.fft.fftn is a function of its argument (no further fact about it is used)")
        M = I.models
        import scipy.fft

        def only(fn, f):
            M[fn] = f

        def mean(q, *a, **k):
            if a or k or not self.is_q(q) or not getattr(q, "is_field", None):
                raise Unsupported("mean")
            return self.q(q.is_field, q.frame, q.dim, q.fac)
        only(np.mean, mean)

        def prod(x, *a, old=M.get(np.prod), **k):
            if isinstance(x, (tuple, list)) and not a and not k and not any(self.is_q(v) for v in x):
                r = 1
                for v in x:
                    r = r * v
                return r
            return old(x, *a, **k)
        only(np.prod, prod)

        def fftn(q, *a, **k):
            if a or set(k) - {"workers"}:
                raise Unsupported("arguments of fftn")
            d = q.data if self.is_q(q) else q
            if not isinstance(d, SArr) or d.ndim != 3:
                raise Unsupported("fftn")
            nm = f"transform_{len(self.transforms)}"
            re, im = c.func(nm + "_re", "i", "i", "i", "r"), c.func(nm + "_im", "i", "i", "i", "r")
            t = lambda f: SArr((n, n, n), lambda *ix: SV(f(*[term(x) for x in ix])), "r", nm)
            self.transforms.append((d, q.dim if self.is_q(q) else {}, q.fac if self.is_q(q) else {}, re, im))
            return self.modes(t(re), t(im))
        only(scipy.fft.fftn, fftn)

        def fftfreq(nn, d=1.0, **k):
            dd = d.data if self.is_q(d) else d
            inv = self.divide(1, SV(as_real(dd)))

            def at(i):
                r = compare("<", i, (nn + 1) // 2)
                f = SV(z3.ToReal(term(ite(r, i, i - nn))))
                return self.divide(f * inv, SV(as_real(nn)))
            a = SArr((nn,), at, "r", "fftfreq")
            self.freq = at
            return self.q(a, d.frame, {k: -v for k, v in d.dim.items()}, {k: -v for k, v in d.fac.items()}) if self.is_q(d) else a
        only(np.fft.fftfreq, fftfreq)

        def meshgrid(*xs, indexing="xy", **k):
            if k or len(xs) != 3 or not all(self.is_q(x) for x in xs):
                raise Unsupported("meshgrid")
            sh = [x.data.shape[0] for x in xs]
            perm = (1, 0, 2) if indexing == "xy" else (0, 1, 2)
            shape = tuple(sh[p] for p in perm)
            return [self.derive(x, SArr(shape, lambda *ix, g=x.data.snapshot(), p=perm.index(k): g(ix[p]), "r", "grid")) for k, x in enumerate(xs)]
        only(np.meshgrid, meshgrid)

        def sqrt(q):
            if any(v % 2 for v in list(q.dim.values()) + list(q.fac.values())):
                raise Unsupported("sqrt")
            h = lambda d: {k: v // 2 for k, v in d.items()}
            return self.q(elementwise(c.sqrt_of, q.data) if isinstance(q.data, SArr) else c.sqrt_of(q.data), q.frame, h(q.dim), h(q.fac))
        old = M.get(np.sqrt)
        only(np.sqrt, lambda q, **k: sqrt(q) if self.is_q(q) else old(q, **k))

        def arange(*a, old=M[np.arange], **k):
            if len(a) == 3 and a[2] == 1 and not k:
                m = c.int("bins")
                lo, hi = as_real(a[0]), as_real(a[1])
                c.assume(land(m >= 0, SV(z3.Or(z3.And(hi <= lo, m.t == 0), z3.And(z3.ToReal(m.t) >= hi - lo, z3.ToReal(m.t) - 1 < hi - lo)))))
                return SArr((m,), lambda i: SV(lo + z3.ToReal(term(i))), "r", "arange")
            return old(*a, **k)
        only(np.arange, arange)

        def histogram(x, bins=10, range=None, density=None, weights=None):
            if range is not None or density or not self.is_q(x) or not self.is_q(bins) or (weights is not None and not self.is_q(weights)):
                raise Unsupported("histogram")
            same = x.dim == bins.dim and x.fac == bins.fac
            c.oblige(same, "modes are binned in units of the bins", kind="pre")
            nm = f"sum_{len(self.sums)}"
            f = c.func(nm, "i", "r" if weights is not None else "i")
            nb = bins.data.shape[0] - 1
            data = SArr((nb,), lambda b: SV(f(term(b))), "r" if weights is not None else "i", nm)
            self.sums.append(dict(f=f, x=x, bins=bins, w=weights))
            if weights is None:
                return data, bins
            return self.q(data, weights.frame, weights.dim, weights.fac), bins
        only(np.histogram, histogram)

    def modes(self, re, im):
        o = SymObj(Modes, {}, name="modes")
        o.re, o.im = re, im
        o.attrs["conj"] = o.attrs["conjugate"] = model(lambda: self.modes(re, elementwise(lambda v: -v, im)))
        o.attrs[("getattr", "real")] = lambda o: re
        o.attrs[("getattr", "imag")] = lambda o: im
        ew = elementwise

        def mul(p):
            if not (isinstance(p, SymObj) and p.cls is Modes):
                raise Unsupported("product of modes")
            f = lambda a, b, c_, d: a * c_ - b * d
            g = lambda a, b, c_, d: a * d + b * c_
            return self.modes(ew(f, re, im, p.re, p.im), ew(g, re, im, p.re, p.im))
        o.attrs[("special", "__mul__")] = model(mul)
        return o

    def setitem(self, o, k, v):
        self.changing(o)
        if not (isinstance(k, SArr) and k.ndim == o.data.ndim == 1):
            raise Unsupported("assignment")
        if self.is_q(v) or kind(v) not in "ir":
            raise Unsupported("assignment of a quantity")
        g, h = o.data.snapshot(), k.snapshot()
        o.data = SArr(o.data.shape, lambda *ix: ite(h(*ix), v, g(*ix)), "r", "assigned")

    def fill(self, o, *a, **k):
        r = super().fill(o, *a, **k)
        o.attrs[("special", "__setitem__")] = model(lambda k, v: self.setitem(o, k, v))
        return r


def spectrum_job():
    job = Job("deposition_to_power_spectrum", budget_s=200)

    def body(job, I, c):
        n = c.int("pixels")
        c.assume(n >= 1)
        W = Binning(job, I, c, n)
        f = getattr(mod(PS), "deposition_to_power_spectrum", None)
        if f is None:
            raise CannotAttach("deposition_to_power_spectrum")
        frame, bframe = bool(c.choose(2)), bool(c.choose(2))
        D = Data(W, c, frame)
        cross, own, fold = bool(c.choose(2)), bool(c.choose(2)), c.choose(2)
        noise = bool(c.choose(2))

        def deposition(name):
            g = c.func(name, "i", "i", "i", "r")
            m = c.real("mean_" + name)
            c.assume(m > 0)
            q = W.q(SArr((n, n, n), lambda *ix: SV(g(*[term(x) for x in ix])), "r", name), frame, {"M": 1, "L": -3}, {"M": 1, "L": -3}, f"the {name}", name)
            q.is_field = m
            return q, g, m
        dep, G, mean = deposition("deposition")
        fields = [(G, mean)]
        kw = dict(folding=fold)
        if cross:
            kw["cross_deposition"], G2, mean2 = deposition("cross_deposition")
            fields.append((G2, mean2))
        box = W.q(D.boxsize.data if bframe else elementwise(lambda v: v * D.scale(), D.boxsize.data), bframe, {"L": 1}, {"L": 1}, "the box size", "boxsize")
        L = D.length(bframe)
        if own:
            eb = c.func("edge", "i", "r")
            nb = c.int("edges")
            c.assume(nb >= 2)
            edges = W.q(SArr((nb,), lambda i: SV(eb(term(i))), "r", "edges"), bframe, {"L": -1}, {"L": -1}, "the bins", "bins")
            kw["wavenumber_bins"] = edges
        if noise:
            ns = c.real("shot_noise_norm")
            c.assume(ns > 0)
            kw["shot_noise_norm"] = ns
        r = I.call(funcval(f), [dep, box], kw)
        if not (isinstance(r, tuple) and len(r) == 3):
            raise Unsupported("result")
        k, p, counts = r
        ok = W.is_q(k) and W.is_q(p) and isinstance(counts, SArr)
        if not ok:
            raise Unsupported("result")
        c.oblige(k.dim == {"L": -1} and k.fac == {"L": -1} and k.frame is bframe, "wavenumbers have the units, scaling and frame of one over the box")
        c.oblige(p.dim == {"L": 3} and p.fac == {"L": 3} and p.frame is bframe, "powers have the units, scaling and frame of the volume of the box")
        # the transforms
        i = [c.int(a) for a in "ijl"]
        for x in i:
            c.assume(land(x >= 0, compare("<", x, n)))
        ix = [x.t for x in i]
        c.oblige(len(W.transforms) == len(fields), "every deposition is transformed once")
        N = z3.ToReal(n.t) * z3.ToReal(n.t) * z3.ToReal(n.t)
        for (d, dim, fac, re, im), (g, m) in zip(W.transforms, fields):
            c.oblige(not dim and not fac, "the overdensity is a number")
            c.oblige(SV(as_real(d.get(*i)) * N * m.t == g(*ix) - m.t), "the overdensity is transformed")
        re, im = W.transforms[0][3:]
        re2, im2 = W.transforms[-1][3:]
        amp = re(*ix) * re2(*ix) + im(*ix) * im2(*ix)
        # the wavenumber of a mode
        pi2 = 2 * z3.RealVal(repr(float(np.pi)))
        fk = lambda x: z3.ToReal(z3.If(x < (n.t + 1) / 2, x, x - n.t))
        foldf = 2 ** fold
        sq = sum(fk(x) * fk(x) for x in ix)
        b = c.int("bin")
        nb_ = counts.shape[0]
        c.assume(land(b >= 0, compare("<", b, nb_)))
        want_edge = lambda e: SV(eb(e)) if own else W.divide((SV(z3.ToReal(e)) + 0.5) * SV(pi2) * foldf, L[0])
        if own:
            W.equal(c, nb_, nb - 1, "as many values as bins")
        for q in (k, p):
            W.equal(c, q.data.shape[0], nb_, "as many values as bins")
        cnt = as_real(counts.get(b))
        if not hasattr(W, "freq"):
            raise Unsupported("frequencies of modes")
        ys = []
        for x in i:
            y = c.real("k_axis")            # 2 pi f / (L / fold)
            c.assume(y.t * as_real(L[0]) == pi2 * foldf * fk(x.t))
            lem = y.t == as_real(W.freq(x)) * z3.ToReal(n.t)
            c.oblige(SV(lem), "the frequency of a mode along an axis", kind="lemma")
            c.assume(lem)
            ys.append(y.t)
        for s in W.sums:
            kk = as_real(s["x"].data.get(*i))
            c.oblige(s["x"].dim == {"L": -1} and s["x"].frame is bframe, "the modes are binned by wavenumber")
            c.oblige(SV(kk >= 0), "a wavenumber is not negative")
            c.oblige(SV(kk * kk == sum(y * y for y in ys)), "the wavenumber of a mode")
            for e in (b.t, b.t + 1):
                W.equal(c, s["bins"].data.get(SV(e)), want_edge(e), "the edges of a bin")
        cs = [s for s in W.sums if s["w"] is None]
        c.oblige(SV(z3.Or(*[cnt == z3.ToReal(s["f"](b.t)) for s in cs])) if cs else False, "the number of modes of a bin is returned")
        for q, dim, what, quantity in ((k, {"L": -1}, "wavenumber", None), (p, {"L": 3}, "power", amp)):
            t = as_real(q.data.get(b))
            ss = [s for s in W.sums if s["w"] is not None and s["w"].dim == dim]
            if len(ss) != 1:
                raise Unsupported("sums")
            s, w = ss[0]["f"](b.t), as_real(ss[0]["w"].data.get(*i))
            scale = z3.RealVal(1) if quantity is None else z3.RealVal(foldf ** 3)
            shot = z3.RealVal(0)
            if quantity is not None and noise:
                shot = as_real(W.divide(L[0] * L[1] * L[2], ns))
            c.oblige(SV(z3.Implies(cnt > 0, (t + shot) * cnt == scale * s)), f"the {what} of a bin is the mean over its modes")
            if quantity is None:
                kk = as_real(ss[0]["x"].data.get(*i))
                c.oblige(SV(w == kk), "the mean is that of the wavenumber")
            else:
                vol = as_real(L[0]) * as_real(L[0]) * as_real(L[0])
                c.oblige(SV(scale * w == amp * vol), "the mean is that of the power of a mode")
    return job.run(body)
