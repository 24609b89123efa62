"""Contract of OrderedSlices (_ordered_slices.py) and of read_ranges_from_hdfstream: C24.

Ghost state: s(i), e(i) the non-empty ranges in ascending order, P(i) the number of rows before the i-th of them; RS(j), RE(j)
the first and last of them that make up slice j; run(i) the slice that holds range i. The steps of the inductions over i and
j are obligations (kind lemma)."""
import z3

from checks.rows import I_, J_, Ranges, forall, get
from pyvc import values as V
from pyvc.arrays import SArr
from pyvc.interp import SIter, SymObj, funcval
from pyvc.job import Job
from pyvc.values import SV, CannotAttach, as_bool, compare, concrete, is_sym, land, lor, term

MOD = "swiftsimio._ordered_slices"


def disjoint_ranges(c):
    R = Ranges(c, ordered=False)
    n = term(R.m)
    A, B, A2, B2 = R.F(I_, 0), R.F(I_, 1), R.F(J_, 0), R.F(J_, 1)
    c.assume(forall([I_, J_], z3.Implies(z3.And(I_ >= 0, J_ >= 0, I_ < n, J_ < n, I_ != J_, A < B, A2 < B2),
                                         z3.Or(B <= A2, B2 <= A)), z3.MultiPattern(A, A2)))
    return R


def bounds(o):
    """start and stop of a slice (or of the first entry of an index tuple)."""
    if isinstance(o, tuple):
        o = o[0]
    if not isinstance(o, slice) or o.step is not None:
        raise CannotAttach("the request is not a list of slices")
    return o.start, o.stop


class Ghost:
    """The selections made by the constructor and the facts about them."""

    def __init__(self, job, c, R, lengths, slices, inverse):
        self.job, self.c, self.R = job, c, R
        sels = [v[1] for v in c.bindings.get("selections", {}).values()]
        if len(sels) < 3:
            raise CannotAttach("the selections of the constructor are not found")
        self.keep, self.ss, self.es = sels[0], sels[1], sels[2]
        self.np = self.keep.count           # number of non-empty ranges
        self.len = lengths


def lemma(job, c, goal, name, *hyps):
    job.add(V.Obligation(name, list(c.pc) + [as_bool(h) for h in hyps], as_bool(goal), "lemma", c.where, job.name))


def constructor(job, I, c, R, ndim, columns):
    """Runs the constructor; -> object, sorted starts/ends (functions), number of non-empty ranges."""
    cls = get("OrderedSlices", MOD)
    n0 = len(c.pc)
    obj = I.call(cls, [R.arr, ndim, columns])
    if not isinstance(obj, SymObj):
        raise CannotAttach("object")
    return obj


def job_(ndim):
    job = Job(f"OrderedSlices ({ndim}-D)", budget_s=100, feas_ms=1500)

    def body(job, I, c):
        R = disjoint_ranges(c)
        columns = slice(None)
        orders = []
        old = job.argsort

        def argsort(a):
            r = Job.argsort(job, a)
            orders.append((a, r))
            return r
        job.argsort = argsort
        obj = I.call(get("OrderedSlices", MOD), [R.arr, ndim, columns])
        job.argsort = old
        slices = obj.attrs.get("slices")
        if isinstance(slices, list):
            slices = SIter(len(slices), lambda k: slices[k])
        if not isinstance(slices, SIter):
            raise CannotAttach("slices")
        sels = [v[1] for v in c.bindings.get("selections", {}).values()]
        keep = next((s for s in sels if s.n is R.m or V.compare("==", s.n, R.m) is True), None)
        rest = [s for s in sels if s is not keep]
        if keep is None or len(rest) != 2:
            raise CannotAttach("the selections of the constructor are not found")
        st, en = rest
        n = keep.count.t
        Z0 = keep.Z
        if orders:
            perm = orders[0][1]
            po = lambda i: term(perm.get(SV(i)))
            qo = lambda i: term(perm.attrs["inverse"](SV(i)))
        else:
            po = qo = lambda i: i
        s = lambda i: R.F(Z0(po(i)), 0)
        e = lambda i: R.F(Z0(po(i)), 1)
        i, j, k = z3.Ints("i!g j!g k!g")
        RS, RE = st.Z, en.Z
        m = term(slices.n)
        P = c.func("P", "i", "i")
        run = c.func("run", "i", "i")
        c.assume(P(0) == 0)
        unfold = lambda x: z3.Implies(z3.And(x >= 0, x < n), P(x + 1) == P(x) + e(x) - s(x))
        c.assume(forall([i], unfold(i), P(i + 1)))
        inr = lambda x, hi=n: z3.And(x >= 0, x < hi)

        def know(f, name, *hyps):
            lemma(job, c, f, name, *hyps)

        # the ranges in ascending order
        x, y = c.int("x").t, c.int("y").t
        fact = z3.Implies(inr(x), z3.And(s(x) < e(x), s(x) >= 0))
        know(fact, "the ranges kept are not empty", inr(x))
        c.assume(forall([i], z3.Implies(inr(i), z3.And(s(i) < e(i), s(i) >= 0)), po(i) if orders else Z0(i)))
        know(e(x) <= s(x + 1), "sorted ranges follow each other", x >= 0, x + 1 < n)
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i + 1 < n), e(i) <= s(i + 1)), P(i), run(i)))
        # the slices found by the code
        a_ = lambda q: term(bounds(slices.elem(SV(q)))[0])
        b_ = lambda q: term(bounds(slices.elem(SV(q)))[1])
        know(z3.Implies(inr(x, m), z3.And(a_(x) == s(RS(x)), RS(x) >= 0, RS(x) < n)), "a slice starts where a range starts")
        know(z3.Implies(inr(x, m), z3.And(b_(x) == e(RE(x)), RE(x) >= 0, RE(x) < n)), "a slice ends where a range ends")
        # a range ends a slice iff the next one starts one
        ssel = lambda q: z3.And(st.inv(q) >= 0, st.inv(q) < st.count.t, RS(st.inv(q)) == q)
        esel = lambda q: z3.And(en.inv(q) >= 0, en.inv(q) < en.count.t, RE(en.inv(q)) == q)
        ends = lambda q: esel(q) == z3.Or(q == n - 1, ssel(q + 1))
        know(ends(x), "a slice ends where the next one starts or at the end", inr(x), st.inv(x + 1) == st.inv(x + 1), en.inv(x) == en.inv(x))
        mono = lambda Z, cntt: z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cntt), Z(i) < Z(j)), patterns=[z3.MultiPattern(Z(i), Z(j))])
        seld = lambda Z, inv, cntt: z3.ForAll([i], z3.Implies(inr(i, cntt), z3.And(Z(i) >= 0, Z(i) < n, inv(Z(i)) == i)), patterns=[Z(i)])

        def pure(f, name, *hyps):
            job.add(V.Obligation(name, [as_bool(h) for h in hyps], as_bool(f), "lemma", c.where, job.name))
        # a slice starts where the one before it ended, in terms of ranges (induction over j)
        prev = z3.If(y == 0, -1, RE(y - 1))
        know(z3.Implies(n > 0, z3.And(RS(0) == 0, st.count.t > 0)), "the first slice starts with the first range",
             st.inv(0) == st.inv(0))
        c.assume(z3.Implies(n > 0, z3.And(RS(0) == 0, st.count.t > 0)))
        c.assume(z3.Implies(n == 0, z3.And(st.count.t == 0, en.count.t == 0)))
        hyp = [inr(y, st.count.t), y <= en.count.t, RS(y) == prev + 1]
        nxt = RS(y + 1) - 1
        trig = [st.inv(RE(y) + 1) == st.inv(RE(y) + 1), en.inv(nxt) == en.inv(nxt), en.inv(n - 1) == en.inv(n - 1), RS(y + 1) == RS(y + 1),
                RE(y) == RE(y), RE(y + 1) == RE(y + 1), RS(st.inv(RE(y) + 1)) == RS(st.inv(RE(y) + 1)), RE(en.inv(nxt)) == RE(en.inv(nxt))]
        pure(z3.And(y < en.count.t, z3.If(y + 1 < st.count.t, RE(y) + 1 == RS(y + 1), z3.And(RE(y) == n - 1, en.count.t == st.count.t))),
             "a slice ends just before the next one starts (induction step)", *hyp, mono(RS, st.count.t), mono(RE, en.count.t),
             seld(RS, st.inv, st.count.t), seld(RE, en.inv, en.count.t), st.count.t >= 0, en.count.t >= 0,
             *[z3.Implies(inr(q), ends(q)) for q in (RE(y), nxt, n - 1)], n > 0)
        c.assume(forall([j], z3.Implies(inr(j, st.count.t), z3.If(j + 1 < st.count.t, RE(j) + 1 == RS(j + 1), RE(j) == n - 1)), RE(j), RS(j)))
        c.assume(en.count.t == st.count.t)
        know(m == st.count.t, "there is a slice per start")
        c.assume(m == st.count.t)
        # which slice a range is in (induction over i)
        c.assume(z3.Implies(n > 0, run(0) == 0))
        kst = lambda q: z3.And(st.inv(q) >= 0, st.inv(q) < st.count.t, RS(st.inv(q)) == q)
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i + 1 < n), run(i + 1) == z3.If(kst(i + 1), run(i) + 1, run(i))), run(i + 1)))
        in_run = lambda q: z3.And(inr(run(q), m), RS(run(q)) <= q, q <= RE(run(q)), s(q) - s(RS(run(q))) == P(q) - P(RS(run(q))))
        know(z3.Implies(n > 0, in_run(z3.IntVal(0))), "the first range is in the first slice", RE(0) == RE(0), RS(0) == RS(0))
        know(in_run(x + 1), "each range is in the slice of its run, at its place (induction step)", x >= 0, x + 1 < n, in_run(x),
             RS(run(x) + 1) == RS(run(x) + 1), RE(run(x) + 1) == RE(run(x) + 1), run(x + 1) == run(x + 1), P(x + 1) == P(x + 1), st.inv(x + 1) == st.inv(x + 1),
             RE(run(x)) == RE(run(x)))
        c.assume(forall([i], z3.Implies(inr(i), in_run(i)), run(i), P(i)))
        # the rows before slice j
        T = c.func("T", "i", "i")
        c.assume(T(0) == 0)
        c.assume(forall([j], z3.Implies(inr(j, m), T(j + 1) == T(j) + b_(j) - a_(j)), T(j + 1)))
        know(z3.Implies(n > 0, P(RS(0)) == 0), "no row before the first slice")
        same_run = run(RE(y)) == y
        know(same_run, "the last range of a slice is in it", inr(y, m), RS(run(RE(y)) + 1) == RS(run(RE(y)) + 1), RE(run(RE(y))) == RE(run(RE(y))))
        know(z3.If(y + 1 < m, T(y + 1) == P(RS(y + 1)), T(y + 1) == P(n)), "rows before a slice (induction step)", inr(y, m), T(y) == P(RS(y)), same_run,
             P(RE(y) + 1) == P(RE(y)) + e(RE(y)) - s(RE(y)), in_run(RE(y)))
        c.assume(forall([j], z3.Implies(inr(j, m), z3.And(T(j) == P(RS(j)), run(RE(j)) == j)), RS(j)))
        c.assume(z3.If(n > 0, T(m) == P(n), T(m) == 0))
        c.assume(forall([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= n), P(i) <= P(j)), z3.MultiPattern(P(i), P(j))))
        # ---- what the property says about the request
        j0 = c.int("j0").t
        un = [in_run(RE(j0)), in_run(RS(j0)), RS(j0 + 1) == RS(j0 + 1), P(RE(j0)) >= P(RS(j0)), RE(j0) == RE(j0)]
        c.oblige(z3.Implies(inr(j0, m), a_(j0) < b_(j0)), "no slice of the request is empty", hyps=[z3.Implies(inr(j0, m), z3.And(*un))])
        c.oblige(z3.Implies(z3.And(j0 >= 0, j0 + 1 < m), b_(j0) <= a_(j0 + 1)), "the slices requested are ascending and disjoint",
                 hyps=[run(RE(j0)) == run(RE(j0)), RS(j0 + 1) == RS(j0 + 1), RE(j0) == RE(j0), P(RE(j0)) == P(RE(j0))])
        r, k0 = c.int("r").t, c.int("k0").t
        inside = z3.And(k0 >= 0, k0 < R.m.t, R.F(k0, 0) <= r, r < R.F(k0, 1))
        pos = qo(keep.inv(k0))
        fin = RE(run(pos))
        know(z3.Implies(inside, z3.And(inr(pos), Z0(po(pos)) == k0)), "the range of a requested row is one of those kept", keep.inv(k0) == keep.inv(k0))
        for f, nm, hy in [(z3.And(in_run(pos), run(pos) == run(pos)), "it is in its run", []),
                          (z3.And(inr(fin), run(fin) == run(pos)), "the last range of the slice is in the same run", [in_run(pos)]),
                          (in_run(fin), "and at its place", [in_run(pos), inr(fin)]),
                          (z3.And(P(pos + 1) == P(pos) + e(pos) - s(pos), P(RS(run(pos))) <= P(pos)), "rows up to it", [in_run(pos), inr(RS(run(pos)))]),
                          (z3.And(s(fin) < e(fin), z3.Implies(pos + 1 <= fin, P(pos + 1) <= P(fin))), "rows up to the last", [in_run(pos), inr(fin)])]:
            know(z3.Implies(inside, f), nm, z3.Implies(inside, z3.And(inr(pos), *hy)), P(pos + 1) == P(pos + 1), RS(run(pos)) == RS(run(pos)))
            c.assume(z3.Implies(inside, f))
        inp = z3.Implies(inside, z3.And(inr(pos), Z0(po(pos)) == k0, in_run(pos), in_run(fin), run(fin) == run(pos), P(pos + 1) == P(pos) + e(pos) - s(pos),
                                        inr(fin), P(RS(run(pos))) <= P(pos), z3.Implies(pos + 1 <= fin, P(pos + 1) <= P(fin)), s(fin) < e(fin)))
        ab = z3.Implies(inr(run(pos), m), z3.And(a_(run(pos)) == s(RS(run(pos))), b_(run(pos)) == e(fin)))
        know(ab, "its slice starts with the first and ends with the last")
        c.oblige(z3.Implies(z3.And(inside, inp, ab), z3.And(inr(run(pos), m), a_(run(pos)) <= r, r < b_(run(pos)))), "every row of every range is requested")
        # rows of a slice: locate the range by position
        L = c.func("range_at", "i", "i")
        p = z3.Int("p!g")
        c.assume(forall([p], z3.Implies(z3.And(p >= 0, p < P(n)), z3.And(L(p) >= 0, L(p) < n, P(L(p)) <= p, p < P(L(p) + 1))), L(p)))
        q = P(RS(j0)) + r - a_(j0)
        req = z3.And(inr(j0, m), a_(j0) <= r, r < b_(j0))
        w = L(q)
        last = RE(j0)
        hy = [in_run(last), run(last) == j0, P(last + 1) == P(last) + e(last) - s(last), P(last + 1) <= P(n), last + 1 <= n, last >= 0]
        know(z3.Implies(req, z3.And(q >= 0, q < P(last + 1))), "a requested row has a position", *[z3.Implies(req, h) for h in hy],
             P(RS(j0)) >= 0)
        know(z3.Implies(z3.And(req, *hy, q >= 0, q < P(last + 1)), z3.And(inr(w), RS(j0) <= w, w <= last)), "the range at that position is in the slice",
             z3.Implies(w + 1 <= RS(j0), P(w + 1) <= P(RS(j0))), z3.Implies(last + 1 <= w, P(last + 1) <= P(w)), L(q) == L(q), inr(RS(j0), n))
        know(z3.Implies(z3.And(req, inr(w), RS(j0) <= w, w <= last), run(w) == j0), "so that slice is its run",
             in_run(w), z3.Implies(j0 + 1 <= run(w), z3.And(RS(j0 + 1) == RS(j0 + 1), RE(j0) < RS(run(w)))),
             z3.Implies(run(w) < j0, RE(run(w)) < RS(j0)))
        c.oblige(z3.Implies(z3.And(req, inr(w), run(w) == j0, P(w) <= q, q < P(w + 1), in_run(w)), z3.And(s(w) <= r, r < e(w), inr(po(w)), inr(Z0(po(w)), R.m.t))),
                 "every requested row belongs to a range", hyps=[P(w + 1) == P(w) + e(w) - s(w)])
        # ---- what reorder_result does with the rows of the slices, in that order
        D = c.func("data", *(["i"] * ndim), "r")
        wd = c.int("columns")
        c.assume(wd >= 0)
        row = c.func("row_at", "i", "i")
        tot = c.int("rows")
        c.assume(tot.t == T(m))
        arr = SArr((tot,), lambda p: SV(D(row(term(p)))), "r", "array") if ndim == 1 else \
            SArr((tot, wd), lambda p, q: SV(D(row(term(p)), term(q))), "r", "array")
        arr.frozen = True
        # any range k0 that is not empty, any row t0 of it
        t0 = c.int("t0").t
        c.assume(z3.And(k0 >= 0, k0 < R.m.t, t0 >= 0, t0 < R.F(k0, 1) - R.F(k0, 0)))
        pr = keep.inv(k0)                       # its number among the non-empty ones
        ps = qo(pr)                             # ... in ascending order
        jj = run(ps)
        off = P(ps) - P(RS(jj)) + t0
        c.assume(z3.Implies(z3.And(inr(jj, m), off >= 0, off < b_(jj) - a_(jj)), row(T(jj) + off) == a_(jj) + off))     # what the server returns
        know(z3.And(inr(pr), Z0(pr) == k0, inr(ps), po(ps) == pr), "the range is one of those kept", keep.inv(k0) == keep.inv(k0), Z0(pr) == Z0(pr))
        c.assume(z3.And(inr(pr), Z0(pr) == k0, inr(ps), po(ps) == pr))
        lastr = RE(jj)
        know(z3.And(inr(jj, m), off >= 0, off < b_(jj) - a_(jj), T(jj) + off == P(ps) + t0), "the row has a place in what is returned",
             in_run(ps), in_run(lastr), run(lastr) == jj, z3.Implies(ps < lastr, P(ps + 1) <= P(lastr)), P(RS(jj)) <= P(ps), P(ps + 1) == P(ps) + e(ps) - s(ps),
             T(jj) == P(RS(jj)), RE(jj) == RE(jj), P(lastr + 1) == P(lastr + 1))
        c.assume(row(P(ps) + t0) == R.F(k0, 0) + t0)
        know(row(P(ps) + t0) == R.F(k0, 0) + t0, "it is row t of the range",
             in_run(ps), inr(jj, m), off >= 0, off < b_(jj) - a_(jj), T(jj) + off == P(ps) + t0, a_(jj) == s(RS(jj)))
        col = c.int("col")
        c.assume(land(col >= 0, col < wd))
        c.pairs = [(SV(pr), SV(t0)) + ((col,) if ndim == 2 else ())]
        cums = []

        def cumsum(a):
            r = Job.cumsum(job, a)
            f, ff = r.snapshot(), a.snapshot()
            cums.append((a, r))
            v = c.int("v").t
            know(z3.Implies(n > 0, term(f(SV(z3.IntVal(0)))) == P(1)), "the running sum of lengths starts with the first", P(1) == P(0) + e(z3.IntVal(0)) - s(z3.IntVal(0)),
                 term(a.shape[0]) == n)
            know(term(f(SV(v + 1))) == P(v + 2), "the running sum of lengths counts the rows (induction step)", v >= 0, v + 1 < n, term(f(SV(v))) == P(v + 1),
                 P(v + 2) == P(v + 1) + e(v + 1) - s(v + 1), term(a.shape[0]) == n)
            know(term(a.shape[0]) == n, "there is a length per range")
            fi = term(f(SV(i)))
            c.assume(forall([i], z3.Implies(inr(i), fi == P(i + 1)), fi))
            return r
        job.cumsum = cumsum
        know(z3.Implies(inr(x), z3.And(P(x) >= 0, P(x) <= P(x + 1), P(x + 1) <= P(n), n >= 0)), "rows before a range")
        c.assume(forall([i], z3.Implies(inr(i), z3.And(P(i) >= 0, P(i) <= P(i + 1), P(i + 1) <= P(n))), P(i)))
        c.assume(forall([i], z3.Implies(inr(i), z3.And(P(i) >= 0, P(i) <= P(i + 1), P(i + 1) <= P(n))), P(i + 1)))
        joined = []
        oldc = Job.concat

        def concat(seq):
            r = oldc(job, seq)
            joined.append((seq, r.attrs["prefix"]))
            return r
        job.concat = concat
        out = I.call(getattr(get("OrderedSlices", MOD), "reorder_result"), [obj, arr])
        # rows before range k0 in the requested order, all ranges counted
        O = job.prefix(R.m, R.len, "requested")
        cnt = c.func("kept_before", "i", "i")
        if joined:
            S = joined[0][1].S
            ln = lambda v: term(joined[0][0].elem(SV(v)).shape[0])
            nn = term(joined[0][0].n)
        else:
            S, ln, nn = P, lambda v: e(v) - s(v), n
        v = c.int("v").t
        kp = lambda q: R.F(q, 0) < R.F(q, 1)
        c.assume(cnt(0) == 0)
        know(nn == n, "the pieces joined are as many as the ranges")
        know(z3.Implies(inr(v), ln(v) == R.F(Z0(v), 1) - R.F(Z0(v), 0)), "piece v of the result has the length of range v", P(qo(v) + 1) == P(qo(v) + 1),
             P(qo(v)) == P(qo(v)), po(qo(v)) == v, z3.Implies(qo(v) >= 1, P(qo(v) - 1 + 1) == P(qo(v))))
        step = z3.Implies(inr(v, R.m.t), cnt(v + 1) == z3.If(kp(v), cnt(v) + 1, cnt(v)))
        c0 = z3.And(cnt(v) >= 0, cnt(v) <= n, z3.Implies(cnt(v) > 0, Z0(cnt(v) - 1) < v), z3.Implies(cnt(v) < n, Z0(cnt(v)) >= v), O.S(v) == S(cnt(v)))
        v1 = v + 1
        c1 = z3.And(cnt(v1) >= 0, cnt(v1) <= n, z3.Implies(cnt(v1) > 0, Z0(cnt(v1) - 1) < v1), z3.Implies(cnt(v1) < n, Z0(cnt(v1)) >= v1), O.S(v1) == S(cnt(v1)))
        ksel = z3.Implies(kp(v), z3.And(inr(keep.inv(v)), Z0(keep.inv(v)) == v))
        know(ksel, "a range that is not empty is kept", inr(v, R.m.t), keep.inv(v) == keep.inv(v))
        kept = lambda q: z3.Implies(inr(q), kp(Z0(q)))
        know(kept(v), "a range that is kept is not empty")
        pure(c1, "empty ranges add no rows (induction step)", n >= 0, ksel, kept(cnt(v)), mono(Z0, n), z3.Implies(inr(v, R.m.t), R.F(v, 0) <= R.F(v, 1)), inr(v, R.m.t), step, c0, O.S(v + 1) == O.S(v) + R.F(v, 1) - R.F(v, 0),
             z3.Implies(inr(cnt(v)), S(cnt(v) + 1) == S(cnt(v)) + ln(cnt(v))), z3.Implies(inr(cnt(v)), ln(cnt(v)) == R.F(Z0(cnt(v)), 1) - R.F(Z0(cnt(v)), 0)),
             keep.inv(v) == keep.inv(v), Z0(cnt(v) + 1) == Z0(cnt(v) + 1), Z0(keep.inv(v)) == Z0(keep.inv(v)))
        ck = lambda q: z3.And(cnt(q) >= 0, cnt(q) <= n, z3.Implies(cnt(q) > 0, Z0(cnt(q) - 1) < q), z3.Implies(cnt(q) < n, Z0(cnt(q)) >= q), O.S(q) == S(cnt(q)))
        c.assume(ck(k0))
        c.assume(ck(R.m.t))
        know(cnt(k0) == pr, "the number of non-empty ranges before it", Z0(cnt(k0)) == Z0(cnt(k0)), Z0(cnt(k0) - 1) == Z0(cnt(k0) - 1))
        c.assume(cnt(k0) == pr)
        know(cnt(R.m.t) == n, "the number of non-empty ranges", Z0(cnt(R.m.t)) == Z0(cnt(R.m.t)))
        c.assume(cnt(R.m.t) == n)
        place = SV(O.S(k0) + t0)
        at = (place,) if ndim == 1 else (place, col)
        want = D(R.F(k0, 0) + t0) if ndim == 1 else D(R.F(k0, 0) + t0, col.t)
        c.oblige(len(out.shape) == ndim, "as many dimensions as the data")
        c.oblige(compare("==", out.shape[0], O.total), "as many rows as requested")
        c.oblige(compare("==", out.get(*at), SV(want)), "row t of requested range k is at its place in the requested order",
                 hyps=[P(ps + 1) == P(ps) + e(ps) - s(ps), P(qo(pr)) == P(qo(pr))])
    return job.run(body)


class Request:
    """A remote dataset."""


def hdfstream_job():
    """read_ranges_from_hdfstream asks for the slices of OrderedSlices(ranges, ndim, columns), into an array of the shape and
    type it was given, and returns that array after reorder_result; without slices it asks for nothing."""
    job = Job("read_ranges_from_hdfstream", budget_s=60)
    fn = get("read_ranges_from_hdfstream", "swiftsimio.accelerated")

    def body(job, I, c):
        ndim = 1 + c.choose(2)
        R = disjoint_ranges(c)
        shape = (c.int("rows"),) if ndim == 1 else (c.int("rows"), c.int("columns"))
        for s in shape:
            c.assume(s >= 0)
        columns = SymObj(Request, {}, name="columns")
        nslices = c.int("n_slices")
        c.assume(nslices >= 0)
        made, asked, swapped = [], [], []
        slices = SIter(nslices, lambda k: slice(0, 1))

        def ordered(*a, **kw):
            names = ["ranges", "ndim", "columns"]
            b = dict(zip(names, a))
            b.update(kw)
            made.append(b)
            job.assumed.add("contract:" + MOD + ":OrderedSlices")
            return obj

        def reorder(arr):
            made.append(arr)
            return SArr(arr.shape, lambda *ix: SV(F(*[term(x) for x in ix])), "r", "reordered")
        F = c.func("reordered", *(["i"] * ndim), "r")

        def request(s, dest=None):
            asked.append((s, dest))
        for g in (ordered, reorder, request):
            g.pyvc_model = True
        obj = SymObj(Request, dict(slices=slices, reorder_result=reorder), name="ordered_slices")
        job.overrides["OrderedSlices"] = ordered
        job.contracts[funcval(get("to_native_byteorder_inplace", "swiftsimio.accelerated")).qual] = \
            lambda I, fv, a, k: (swapped.append(a[0]), I.job.assumed.add("contract (run-time evaluation only):" + fv.qual))[1]
        h = SymObj(Request, dict(ndim=ndim, request_slices=request), name="handle")
        dt = __import__("numpy").float64
        out = I.call(fn, [h, R.arr, shape if ndim == 2 else shape[0]], dict(output_type=dt, columns=columns))
        if len(made) != 2 or not isinstance(made[0], dict):
            raise CannotAttach("use of OrderedSlices")
        b, arr = made
        c.oblige(land(b["ranges"] is R.arr, compare("==", b["ndim"], ndim), b.get("columns") is columns), "the slices are those of the ranges and columns asked for")
        if asked:
            c.oblige(len(asked) == 1 and asked[0][0] is slices, "exactly the slices are requested, once")
            c.oblige(asked[0][1] is arr, "what the server returns is what is put into order")
        else:
            c.oblige(compare("==", nslices, 0), "nothing is requested only when there are no slices")
        c.oblige(len(arr.shape) == ndim, "the destination has the shape asked for")
        for p, q in zip(arr.shape, shape):
            c.oblige(compare("==", p, q), "the destination has the shape asked for")
        ix = [c.int("ix") for _ in shape]
        c.oblige(compare("==", out.get(*ix), SV(F(*[x.t for x in ix]))), "the rows are returned in the order of reorder_result")
    return job.run(body)
