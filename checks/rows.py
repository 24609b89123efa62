"""Contracts of the row-range functions (accelerated.py), shared by C01, C02 and C24.

Ghost state: P(i) = number of rows in the first i ranges; W(i) = the chunk range that holds range i; Q(c) = number of
rows in the first c chunk ranges. Postconditions about all rows are proved for one arbitrary (range, offset)."""
import importlib
import sys

import z3

from pyvc import values as V
from pyvc.arrays import SArr, fresh_array
from pyvc.interp import SymObj, funcval
from pyvc.job import Job, LoopSpec
from pyvc.values import SV, CannotAttach, Unsupported, as_bool, compare, concrete, is_sym, ite, land, lor, term

ACC = "swiftsimio.accelerated"
BIG = 2 ** 62


def get(name, mod=ACC):
    importlib.import_module(mod)
    return getattr(sys.modules[mod], name)


def forall(vs, body, *pats):
    pats = [p for p in pats if p.decl().kind() == z3.Z3_OP_UNINTERPRETED or not hasattr(p, "children")] if not any(
        isinstance(p, z3.PatternRef) for p in pats) else pats
    pats = [p for p in pats if isinstance(p, z3.PatternRef) or clean(p)]
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def clean(t):
    """May be used as a trigger."""
    st = [t]
    while st:
        x = st.pop()
        if not z3.is_app(x) or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return False
        st.extend(x.children())
    return True


I_, J_ = z3.Ints("i!q j!q")


class Ranges:
    """`m` half-open ranges. ordered: each starts at or after the end of the previous one."""

    def __init__(self, c, name="ranges", upper=None, ordered=True, nonempty=False, m=None):
        self.m = c.int("n_" + name) if m is None else m
        c.assume(self.m >= 0)
        self.F = c.func(name, "i", "i", "i")
        self.arr = SArr((self.m, 2), lambda i, j: SV(self.F(term(i), term(j))), "i", name)
        self.arr.frozen = True
        A, B, n = self.F(I_, 0), self.F(I_, 1), term(self.m)
        inr = z3.And(I_ >= 0, I_ < n)
        c.assume(forall([I_], z3.Implies(inr, z3.And(A >= 0, A <= B)), A))
        c.assume(forall([I_], z3.Implies(inr, z3.And(A >= 0, A <= B)), B))
        if nonempty:
            c.assume(forall([I_], z3.Implies(inr, A < B), A))
        if upper is not None:
            c.assume(forall([I_], z3.Implies(inr, B <= term(upper)), B))
        if ordered:
            c.assume(forall([I_, J_], z3.Implies(z3.And(I_ >= 0, I_ < J_, J_ < n), B <= self.F(J_, 0)),
                            z3.MultiPattern(B, self.F(J_, 0))))

    def a(self, i):
        return SV(self.F(term(i), 0))

    def b(self, i):
        return SV(self.F(term(i), 1))

    def len(self, i):
        return self.b(i) - self.a(i)


def sums(job, *known):
    """sum(x) is the total of the known sequence of which x is a copy (elementwise equality is an obligation)."""
    def hook(x):
        c = V.ctx()
        for n, f, S in known:
            if x.ndim in (1, 2) and as_same(c, x.shape[0], n):
                k = c.int("any")
                pre = z3.And(k.t >= 0, k.t < term(n))
                v = x.get(k) if x.ndim == 1 else x.get(k, 0)
                if x.ndim == 2 and concrete(x.shape[1]) != 1:
                    continue
                c.oblige(z3.Implies(pre, as_bool(compare("==", v, f(k)))), "the summed values are the lengths of the ranges")
                return S.total
        return None
    job.sum_hook = hook


def as_same(c, a, b):
    r = compare("==", a, b)
    return r is True or (r is not False and c.entails(r))


# ------------------------------------------------------------------ expand_ranges
def expand_job():
    """expand_ranges: the result has as many elements as the ranges have rows, and element P(r)+j is a_r + j."""
    job = Job("expand_ranges", budget_s=60)
    fn = get("expand_ranges")

    def body(job, I, c):
        R = Ranges(c, ordered=False)
        S = job.prefix(R.m, R.len, "rows")
        sums(job, (R.m, R.len, S))
        r0, j0 = c.int("r0"), c.int("j0")
        c.assume(land(r0 >= 0, r0 < R.m, j0 >= 0, j0 < R.len(r0)))
        S.unfold(r0)
        pos = S(r0) + j0
        want = R.a(r0) + j0

        def outer(env, k):
            S.unfold(k)
            yield "position is the number of rows so far", compare("==", env.i, S(k))
            yield "rows of the ranges so far are in place", lor(k <= r0, compare("==", env.output.get(pos), want))

        def inner(env, k):
            yield "rows of the earlier ranges stay in place", lor(c.cur <= r0, compare("==", env.output.get(pos), want))
            yield "rows of this range so far are in place", lor(compare("!=", c.cur, r0), k <= j0,
                                                                 compare("==", env.output.get(pos), want))

        class Outer(LoopSpec):
            def inv(self, env, k):
                c.cur = k if not (is_sym(k) and z3.is_app(k.t) and k.t.num_args() == 2) else c.cur
                return super().inv(env, k)
        job.loops = [Outer(["output", "i"], outer, nth=0), LoopSpec(["output", "i"], inner, nth=1)]
        out = I.call(fn, [R.arr])
        c.oblige(compare("==", out.shape[0], S.total), "the result has one element per row of the ranges")
        c.oblige(compare("==", out.get(pos), want), "the element of row j of range r is a_r + j")
    return job.run(body)


def expand_contract(I, fv, args, kw):
    c = V.ctx()
    arr = args[0]
    I.job.assumed.add("contract:" + fv.qual)
    f = arr.snapshot()
    m = arr.shape[0]
    ln = lambda i: f(i, 1) - f(i, 0)
    S = I.job.prefix(m, ln, "expanded")
    out = fresh_array("rows_of", (S.total,), "i")
    g = out.fn
    for r, j in getattr(c, "pairs", []):
        S.unfold(r)
        c.assume(z3.Implies(as_bool(land(r >= 0, r < m, j >= 0, j < ln(r))), term(g(S(r) + j)) == term(f(r, 0) + j)))
    # every position belongs to a range (the sums start at 0, end at the length and grow by the lengths)
    p = z3.Int("p!e")
    L = c.func("range_of", "i", "i")
    c.assume(forall([p], z3.Implies(z3.And(p >= 0, p < S.total.t),
                                    z3.And(L(p) >= 0, L(p) < term(m), S.S(L(p)) <= p, p < S.S(L(p)) + term(ln(SV(L(p)))),
                                           S.S(L(p) + 1) == S.S(L(p)) + term(ln(SV(L(p)))),
                                           term(g(SV(p))) == term(f(SV(L(p)), 0)) + p - S.S(L(p)))), term(g(SV(p)))))
    c.last_expand = (S, arr, out)
    out.attrs["prefix"] = S
    out.attrs["range_of"] = L
    return out


# ------------------------------------------------------------------ get_chunk_ranges
class Chunks:
    """Chunk ranges covering the ranges: strictly ordered, in bounds; W(i) is the one holding range i, W starts at 0 and
    grows by 0 or 1."""

    def __init__(self, c, R, N, arr=None, L=None, W=None):
        self.L = c.int("n_chunk_ranges") if L is None else L
        self.F = c.func("chunk", "i", "i", "i")
        self.W = c.func("chunk_of", "i", "i") if W is None else W
        self.arr = SArr((self.L, 2), lambda i, j: SV(self.F(term(i), term(j))), "i", "chunk_ranges")
        for f in facts(lambda i, j: self.F(i, j), term(self.L), self.W, R, term(R.m), term(N)):
            c.assume(f[1])

    def a(self, i):
        return SV(self.F(term(i), 0))

    def b(self, i):
        return SV(self.F(term(i), 1))

    def len(self, i):
        return self.b(i) - self.a(i)


def facts(C, L, W, R, k, N):
    """The cover property for the first k ranges, C(i, j) the chunk ranges, L their number."""
    i, j = z3.Ints("i!f j!f")
    inr = z3.And(i >= 0, i < k)
    yield "there is a chunk range iff there is a range", z3.And(z3.Implies(k > 0, L >= 1), z3.Implies(k == 0, L == 0), L >= 0)
    yield "the first range is in the first chunk range", z3.Implies(k > 0, W(0) == 0)
    yield "the last range is in the last chunk range", z3.Implies(k > 0, W(k - 1) == L - 1)
    yield "every range is inside its chunk range", forall([i], z3.Implies(inr, z3.And(
        W(i) >= 0, W(i) < L, C(W(i), 0) <= R.F(i, 0), R.F(i, 1) <= C(W(i), 1))), W(i))
    yield "chunk ranges are taken in turn", forall([i], z3.Implies(z3.And(i >= 0, i + 1 < k), z3.And(
        W(i) <= W(i + 1), W(i + 1) <= W(i) + 1)), W(i + 1))
    yield "chunk ranges are in bounds", forall([i], z3.Implies(z3.And(i >= 0, i < L), z3.And(
        0 <= C(i, 0), C(i, 0) <= C(i, 1), C(i, 1) <= N)))
    yield "chunk ranges are ordered and apart", forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < L), C(i, 1) < C(j, 0)))


def chunk_ranges_job():
    job = Job("get_chunk_ranges", budget_s=100, feas_ms=1500)
    fn = get("get_chunk_ranges")

    def body(job, I, c):
        c.abstract_div = True
        N, cs = c.int("N"), c.int("chunk_size")
        c.assume(land(cs >= 1, N >= 0))
        R = Ranges(c, upper=N)
        c.assume(R.m >= 1)
        W = c.func("chunk_of", "i", "i")
        # ghost: U(i) = the number of chunks up to the end of range i, up(i) = that end rounded up
        U, up = c.func("U", "i", "i"), c.func("up", "i", "i")
        ct = term(cs)
        c.assume(forall([I_], z3.And((U(I_) - 1) * ct < R.F(I_, 1), R.F(I_, 1) <= U(I_) * ct, up(I_) == U(I_) * ct), up(I_)))
        x, y, b1, b2 = z3.Ints("x!l y!l b1!l b2!l")
        job.add(V.Obligation("rounding up is monotone", [ct >= 1, (x - 1) * ct < b1, b1 <= b2, b2 <= y * ct], x * ct <= y * ct,
                             "lemma", "", job.name))
        job.add(V.Obligation("rounding up is unique", [ct >= 1, (x - 1) * ct < b1, b1 <= x * ct, (y - 1) * ct < b1, b1 <= y * ct],
                             x * ct == y * ct, "lemma", "", job.name))
        c.assume(forall([I_, J_], z3.Implies(z3.And(I_ >= 0, I_ <= J_, J_ < term(R.m)), up(I_) <= up(J_)), z3.MultiPattern(up(I_), up(J_))))

        def inv(env, k):
            C = env.chunk_ranges
            f = C.snapshot()
            kt = term(k)
            for nm, g in facts(lambda i, j: term(f(SV(i) if not is_sym(i) else i, j)), term(C.shape[0]), W, R, kt, term(N)):
                yield nm, g
            last = term(f(C.shape[0] - 1, 1))
            yield "the last chunk range ends at the rounded-up end of the last range", z3.Implies(
                kt > 0, last == z3.If(up(kt - 1) <= term(N), up(kt - 1), term(N)))

        def ghost(env, k):
            yield W(term(k)) == term(env.chunk_ranges.shape[0]) - 1
            q = -c.int_div(term(-R.b(k)), ct)       # the uniqueness lemma for the rounding in the code
            yield z3.Implies(z3.And((q - 1) * ct < R.F(term(k), 1), R.F(term(k), 1) <= q * ct), q * ct == up(term(k)))
        job.loops = [LoopSpec(["chunk_ranges"], inv, lists={"chunk_ranges": 2}, nth=0, ghost=ghost)]
        out = I.call(fn, [R.arr, cs, N])
        f = out.snapshot()
        for nm, g in facts(lambda i, j: term(f(SV(i), j)), term(out.shape[0]), W, R, term(R.m), term(N)):
            c.oblige(g, nm)
    return job.run(body)


# ------------------------------------------------------------------ extract_ranges_from_chunks
def rows_array(c, name, n, content, ndim, w=None):
    """An array of n rows whose row p is row content(p) of the stored data."""
    if ndim == 1:
        return SArr((n,), lambda p: content(p), "r", name)
    return SArr((n, w), lambda p, q: content(p, q), "r", name)


def extract_job(ndim):
    job = Job(f"extract_ranges_from_chunks ({ndim}-D)", budget_s=100, feas_ms=1500)
    fn = get("extract_ranges_from_chunks")

    def body(job, I, c):
        N = c.int("N")
        c.assume(land(N >= 0, N < BIG))
        R = Ranges(c, upper=N)
        c.assume(land(R.m >= 1, R.m < 2 ** 31))
        C = Chunks(c, R, N)
        c.assume(C.L < 2 ** 31)
        C.arr.frozen = True
        Q = job.prefix(C.L, C.len, "chunk_rows")
        D = c.func("data", *(["i"] * ndim), "r")
        w = c.int("columns")
        c.assume(w >= 0)
        # the array read from the chunk ranges: position p is in chunk range E(p)
        E = c.func("chunk_at", "i", "i")
        p, i = z3.Ints("p!c i!c")
        src = c.func("source_row", "i", "i")
        c.assume(forall([i, p], z3.Implies(z3.And(i >= 0, i < C.L.t, p >= 0, p < term(C.len(SV(i)))),
                                           src(Q.S(i) + p) == C.F(i, 0) + p)))
        arr = rows_array(c, "array", Q.total, (lambda p: SV(D(src(term(p))))) if ndim == 1 else
                         (lambda p, q: SV(D(src(term(p)), term(q)))), ndim, w)
        arr.frozen = True
        r0, j0 = c.int("r0"), c.int("j0")
        c.assume(land(r0 >= 0, r0 < R.m, j0 >= 0, j0 < R.len(r0)))
        W = lambda i: SV(C.W(term(i)))

        def unfold(i):
            Q.unfold(W(i))

        def find(env, k=None):
            idx = env.chunk_array_index.snapshot()
            yield "scan positions are in range", land(env.ranges_index >= 0, env.ranges_index <= R.m, env.chunk_index >= 0,
                                                       env.chunk_index <= C.L)
            yield "the ranges seen are in the chunk ranges found", SV(forall([i], z3.Implies(
                z3.And(i >= 0, i < term(env.ranges_index)), term(idx(SV(i))) == C.W(i))))
            yield "no chunk range is passed too early", lor(env.ranges_index >= R.m, env.chunk_index <= W(env.ranges_index))

        def shift(env, k):
            adj = env.adjusted_ranges.snapshot()
            unfold(k)
            yield "the running sum is the number of rows in the earlier chunk ranges", compare("==", env.running_sum, Q(W(k)))
            x = lambda i, j: z3.Implies(z3.And(i >= 0, i < term(k)), term(adj(SV(i), j)) == R.F(i, j) - C.F(C.W(i), 0) + Q.S(C.W(i)))
            yield "ranges so far are relative to the array (start)", forall([i], x(i, 0), term(adj(SV(i), 0)))
            yield "ranges so far are relative to the array (end)", forall([i], x(i, 1), term(adj(SV(i), 1)))

        idx_spec = LoopSpec(["chunk_array_index", "chunk_index", "ranges_index"], find, kindof="while", nth=0,
                            variant=lambda env: R.m - env.ranges_index + C.L - env.chunk_index)
        job.loops = [idx_spec, LoopSpec(["adjusted_ranges", "running_sum"], shift, nth=0)]
        job.contracts[funcval(get("expand_ranges")).qual] = expand_contract
        unfold(r0)
        unfold(R.m - 1)
        c.pairs = [(r0, j0)]
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i < term(R.m)),
                                        Q.S(C.W(i) + 1) == Q.S(C.W(i)) + C.F(C.W(i), 1) - C.F(C.W(i), 0)), C.W(i)))
        pp = term(R.a(r0) + j0 - C.a(W(r0)))
        c.assume(z3.Implies(z3.And(pp >= 0, pp < term(C.len(W(r0)))), src(Q.S(C.W(r0.t)) + pp) == C.F(C.W(r0.t), 0) + pp))
        out = I.call(fn, [arr, C.arr, R.arr])
        S = c.last_expand[0]
        P = job.prefix(R.m, R.len, "rows")
        k = c.int("k")
        c.oblige(z3.Implies(z3.And(k.t >= 0, k.t < term(R.m)), term(S.f(k)) == term(R.len(k))), "shifted ranges keep their lengths")
        same_sums(job, c, S, P)
        c.oblige(compare("==", out.shape[0], P.total), "one row per row of the ranges")
        if ndim == 1:
            c.oblige(compare("==", out.get(P(r0) + j0), SV(D(term(R.a(r0) + j0)))), "row j of range r is row a_r + j of the data")
        else:
            col = c.int("col")
            c.assume(land(col >= 0, col < w))
            c.oblige(compare("==", out.get(P(r0) + j0, col), SV(D(term(R.a(r0) + j0), term(col)))),
                     "row j of range r is row a_r + j of the data")
    return job.run(body)


def same_sums(job, c, S, P):
    """Partial sums of two sequences proved equal element by element are equal (induction)."""
    s1, s2, f1, f2 = z3.Ints("s1 s2 f1 f2")
    job.add(V.Obligation("equal sequences have equal partial sums (induction step)", [s1 == s2, f1 == f2], s1 + f1 == s2 + f2,
                         "lemma", "", job.name))
    i = z3.Int("i!ss")
    c.assume(forall([i], z3.Implies(z3.And(i >= 0, i <= term(P.n)), S.S(i) == P.S(i)), S.S(i)))
    c.assume(forall([i], z3.Implies(z3.And(i >= 0, i <= term(P.n)), S.S(i) == P.S(i)), P.S(i)))


# ------------------------------------------------------------------ the readers
class Handle:
    """A stored dataset of N rows; read_direct copies rows (h5py's contract)."""


def handle(c, ndim, N, w, chunked, columns):
    """The data set as the reader sees it, with h5py's contract for read_direct: the rows of source_sel are copied to the
    rows of dest_sel, both in bounds and equally many."""
    D = c.func("data", *(["i"] * ndim), "r")

    def read_direct(out, source_sel=None, dest_sel=None):
        c = V.ctx()
        if ndim == 1:
            if isinstance(source_sel, tuple):
                raise TypeError("too many indices")
            s = source_sel
        else:
            if not isinstance(source_sel, tuple) or len(source_sel) != 2 or source_sel[1] is not columns:
                c.oblige(False, "the columns asked for are read", kind="pre")
            s = source_sel[0]
        d = dest_sel
        if not isinstance(s, slice) or not isinstance(d, slice) or s.step is not None or d.step is not None:
            raise Unsupported("selection form")
        c.oblige(land(s.start >= 0, s.start <= s.stop, s.stop <= N), "rows read are rows of the dataset", kind="pre")
        c.oblige(land(d.start >= 0, d.start <= d.stop, d.stop <= out.shape[0]), "rows are stored inside the output", kind="pre")
        c.oblige(compare("==", s.stop - s.start, d.stop - d.start), "as many rows are stored as are read", kind="pre")
        old = out.fn

        def fn(p, *q):
            return ite(land(compare(">=", p, d.start), compare("<", p, d.stop)),
                       SV(D(term(p - d.start + s.start), *[term(x) for x in q])), old(p, *q))
        out.set_all(fn)
        I_ = c.interp
        I_.job.assumed.add("h5py Dataset.read_direct copies the rows of source_sel to the rows of dest_sel")
    read_direct.pyvc_model = True
    h = SymObj(Handle, dict(ndim=ndim, read_direct=read_direct, shape=(N,) if ndim == 1 else (N, w), name="/data"), name="handle")
    h.attrs["chunks"] = ((chunked,) if ndim == 1 else (chunked, w)) if chunked is not None else None
    return h, D


def native(I, fv, args, kw):
    I.job.assumed.add("contract (run-time evaluation only):" + fv.qual + " leaves the values as they are")
    return None


def result_post(c, out, ndim, P, R, D, r0, j0, w):
    c.oblige(compare("==", out.shape[0], P.total), "one row per row of the ranges")
    c.oblige(len(out.shape) == ndim, "as many dimensions as the dataset")
    if ndim == 1:
        c.oblige(compare("==", out.get(P(r0) + j0), SV(D(term(R.a(r0) + j0)))), "row j of range r is row a_r + j of the dataset")
    else:
        col = c.int("col")
        c.assume(land(col >= 0, col < w))
        c.oblige(compare("==", out.shape[1], w), "as many columns as asked for")
        c.oblige(compare("==", out.get(P(r0) + j0, col), SV(D(term(R.a(r0) + j0), term(col)))),
                 "row j of range r is row a_r + j of the dataset")


def copy_loop(job, c, R, S, D, r0, j0, ndim, col):
    """Invariant of a loop that copies the rows of the ranges one after the other."""
    pos = S(r0) + j0

    def inv(env, k):
        S.unfold(k)
        at = (pos,) if ndim == 1 else (pos, col)
        want = SV(D(term(R.a(r0) + j0))) if ndim == 1 else SV(D(term(R.a(r0) + j0), term(col)))
        yield "position is the number of rows so far", compare("==", env.already_read, S(k))
        yield "rows of the ranges so far are in place", lor(k <= r0, compare("==", env.output.get(*at), want))
    return LoopSpec(["output", "already_read"], inv, nth=0)


def reader_job(which, ndim):
    """read_ranges_from_file_unchunked / _chunked."""
    job = Job(f"{which} ({ndim}-D)", budget_s=120, feas_ms=1500)
    fn = get(which)
    chunked = which.endswith("_chunked")

    def body(job, I, c):
        N, w = c.int("N"), c.int("columns")
        c.assume(land(N >= 0, N < BIG, w >= 0))
        columns = SymObj(Handle, {}, name="columns")
        cs = None
        if chunked:
            cs = c.int("chunk_size")
            c.assume(cs >= 1)
        h, D = handle(c, ndim, N, w, cs, columns)
        R = Ranges(c, upper=N)
        P = job.prefix(R.m, R.len, "rows")
        r0, j0 = c.int("r0"), c.int("j0")
        c.assume(land(r0 >= 0, r0 < R.m, j0 >= 0, j0 < R.len(r0)))
        P.unfold(r0)
        col = c.int("col")
        c.assume(land(col >= 0, col < w))
        job.contracts[funcval(get("to_native_byteorder_inplace")).qual] = native
        if chunked:
            c.assume(land(R.m >= 1, R.m < 2 ** 31))

            def chunk_ranges(I, fv, args, kw):
                rr, size, n = args
                c = V.ctx()
                c.oblige(rr is R.arr, "chunk ranges are computed for the ranges", kind="pre")
                c.oblige(land(compare("==", size, cs), compare("==", n, N)), "for this chunking and length", kind="pre")
                job.assumed.add("contract:" + fv.qual)
                C = Chunks(c, R, N)
                c.assume(C.L < 2 ** 31)
                Q = job.prefix(C.L, C.len, "chunk_rows")
                x, y = c.int("x0"), c.int("y0")     # one arbitrary row of the chunk ranges
                c.assume(z3.Implies(C.L.t >= 1, as_bool(land(x >= 0, x < C.L, y >= 0, y < C.len(x)))))
                Q.unfold(x)
                c.chunk = (C, Q, x, y)
                sums(job, (R.m, R.len, P), (C.L, C.len, Q))
                job.loops = [copy_loop(job, c, C, Q, D, x, y, ndim, col)]
                return C.arr

            def extract(I, fv, args, kw):
                arr, ch, rr = args
                c = V.ctx()
                C, Q, x, y = c.chunk
                job.assumed.add("contract:" + fv.qual)
                c.oblige(ch is C.arr and rr is R.arr, "extraction uses the ranges and their chunk ranges", kind="pre")
                c.oblige(compare("==", arr.shape[0], Q.total), "the array holds the rows of the chunk ranges", kind="pre")
                at = (Q(x) + y,) if ndim == 1 else (Q(x) + y, col)
                src = (C.a(x) + y,) if ndim == 1 else (C.a(x) + y, col)
                c.oblige(z3.Implies(as_bool(y < C.len(x)), as_bool(compare("==", arr.get(*at), SV(D(*[term(v) for v in src]))))),
                         "every row of the chunk ranges is in the array", kind="pre")
                res = fresh_array("extracted", (P.total,) + tuple(arr.shape[1:]), "r")
                g = res.fn
                at = (P(r0) + j0,) if ndim == 1 else (P(r0) + j0, col)
                src = (R.a(r0) + j0,) if ndim == 1 else (R.a(r0) + j0, col)
                c.assume(compare("==", g(*at), SV(D(*[term(v) for v in src]))))
                return res
            job.contracts[funcval(get("get_chunk_ranges")).qual] = chunk_ranges
            job.contracts[funcval(get("extract_ranges_from_chunks")).qual] = extract
        else:
            job.loops = [copy_loop(job, c, R, P, D, r0, j0, ndim, col)]
        shape = P.total if ndim == 1 else (P.total, w)
        out = I.call(fn, [h, R.arr, shape], dict(columns=columns))
        c.oblige(compare("==", out.shape[0], P.total), "one row per row of the ranges")
        c.oblige(len(out.shape) == ndim, "as many dimensions as the dataset")
        at = (P(r0) + j0,) if ndim == 1 else (P(r0) + j0, col)
        src = (R.a(r0) + j0,) if ndim == 1 else (R.a(r0) + j0, col)
        if ndim == 2:
            c.oblige(compare("==", out.shape[1], w), "as many columns as asked for")
        c.oblige(compare("==", out.get(*at), SV(D(*[term(v) for v in src]))), "row j of range r is row a_r + j of the dataset")
    return job.run(body)


def dispatch_job():
    """read_ranges_from_file hands its arguments unchanged to one of the readers and returns its result."""
    job = Job("read_ranges_from_file", budget_s=60)
    fn = get("read_ranges_from_file")

    def body(job, I, c):
        kindof = c.choose(3)     # contiguous, chunked, remote
        N = c.int("N")
        R = Ranges(c, upper=N)
        cs = c.int("chunk_size")
        c.assume(cs >= 1)
        columns = SymObj(Handle, {}, name="columns")
        h = SymObj(Handle, dict(ndim=1, shape=(N,), chunks=None if kindof == 0 else (cs,)), name="handle")
        if kindof == 2:
            def rs(*a, **k):
                raise Unsupported("request")
            rs.pyvc_model = True
            h.attrs["request_slices"] = rs
        shape, dt = c.int("shape"), np_float()
        calls = []

        def reader(name):
            def f(I, fv, args, kw):
                b = I.bind(fv, args, kw)
                calls.append((name, b))
                res = SymObj(Handle, {}, name="rows")
                calls.append(res)
                c = V.ctx()
                if name == "read_ranges_from_file_chunked":
                    c.oblige(h.attrs["chunks"] is not None, "only a chunked dataset is read by chunks", kind="pre")
                    c.oblige(R.m >= 1, "the chunk reader is used for at least one range", kind="pre")
                if name == "read_ranges_from_hdfstream":
                    c.oblige(kindof == 2, "only a remote dataset is requested from a server", kind="pre")
                else:
                    c.oblige(kindof != 2, "a remote dataset is requested from its server", kind="pre")
                c.oblige(land(b["handle"] is h, b["ranges"] is R.arr, b["output_type"] is dt, b["columns"] is columns,
                              b["output_shape"] is shape), "the reader gets the caller's arguments", kind="pre")
                job.assumed.add("contract:" + fv.qual)
                return res
            return f
        for nm in ("read_ranges_from_file_unchunked", "read_ranges_from_file_chunked", "read_ranges_from_hdfstream"):
            job.contracts[funcval(get(nm)).qual] = reader(nm)

        def mean(x):
            # numpy: the mean of nothing is nan, which compares false
            c = V.ctx()
            if concrete(x.shape[0] if is_sym(x.shape[0]) else x.shape[0]) is not None and c.branch(as_bool(compare(">=", x.shape[0], 1))):
                return c.real("mean")
            return float("nan")
        job.mean_of = mean
        out = I.call(fn, [h, R.arr, shape], dict(output_type=dt, columns=columns))
        c.oblige(len(calls) == 2 and out is calls[-1], "the result is what the reader returns")
    return job.run(body)


def np_float():
    import numpy as np
    return np.float64


# ------------------------------------------------------------------ ranges_from_array
def rfa_facts(out, L, pos, x, n):
    """The ranges `out` denote the first n elements of x: range r is x[pos(r)], x[pos(r)+1], ..."""
    r, p = z3.Ints("r!a p!a")
    ln = lambda i: out(i, 1) - out(i, 0)
    inr = z3.And(r >= 0, r < L)
    yield "the first range starts at the first index", z3.Implies(L > 0, pos(0) == 0)
    yield "each range starts where the one before it ended", forall([r], z3.Implies(z3.And(r >= 0, r + 1 < L), pos(r + 1) == pos(r) + ln(r)), pos(r + 1))
    yield "ranges are not empty", forall([r], z3.Implies(inr, z3.And(ln(r) >= 1, pos(r) >= 0, pos(r) + ln(r) <= n)), pos(r))
    yield "ranges are ordered", forall([r], z3.Implies(z3.And(r >= 0, r + 1 < L), out(r, 0) <= out(r + 1, 0)), pos(r + 1))
    yield "the rows of a range are the indices at its positions", forall([r, p], z3.Implies(
        z3.And(inr, p >= pos(r), p < pos(r) + ln(r)), x(p) == out(r, 0) + p - pos(r)), z3.MultiPattern(pos(r), x(p)))


def rfa_job(strict):
    job = Job("ranges_from_array" + (" (strictly ascending)" if strict else " (ascending)"), budget_s=100, feas_ms=1500)
    fn = get("ranges_from_array")

    def body(job, I, c):
        n = c.int("n")
        c.assume(n >= 0)
        x = c.func("index", "i", "i")
        c.assume(forall([I_, J_], z3.Implies(z3.And(I_ >= 0, I_ < J_, J_ < n.t), x(I_) < x(J_) if strict else x(I_) <= x(J_)),
                        z3.MultiPattern(x(I_), x(J_))))
        c.assume(forall([I_], z3.Implies(z3.And(I_ >= 0, I_ < n.t), z3.And(x(I_) >= 0, x(I_) < BIG)), x(I_)))
        arr = SArr((n,), lambda i: SV(x(term(i))), "i", "array")
        arr.frozen = True
        pos = c.func("pos", "i", "i")
        p, r = z3.Ints("p!i r!i")

        def apart(f, L):
            yield "ranges are separated by at least one index", forall([r], z3.Implies(
                z3.And(r >= 0, r + 1 < L), f(r, 1) < f(r + 1, 0)), pos(r + 1))

        def inv(env, k):
            o = env.output.snapshot()
            f = lambda i, j: term(o(SV(i) if z3.is_expr(i) else i, j))
            L = term(env.output.shape[0])
            start, stop = term(env.start), term(env.stop)
            kt = term(k)
            sp = kt - (stop - start)
            yield "the current run is not empty and lies behind the finished ones", z3.And(start <= stop, sp >= 0, L >= 0, stop == x(kt))
            yield "the current run is the last indices", forall([p], z3.Implies(z3.And(p >= sp, p <= kt), x(p) == start + p - sp), x(p))
            yield "finished ranges end where the current run starts", z3.If(L > 0, pos(L - 1) + f(L - 1, 1) - f(L - 1, 0) == sp, sp == 0)
            yield "the current run starts after the last finished range", z3.Implies(L > 0, f(L - 1, 0) <= start)
            if strict:
                yield "the current run is apart from the last finished range", z3.Implies(L > 0, f(L - 1, 1) < start)
                yield from apart(f, L)
            yield from rfa_facts(f, L, pos, x, kt + 1)

        def close(out, total):
            """Ghost: the position of the last finished range."""
            L = out.shape[0]
            return z3.Implies(term(L) >= 1, pos(term(L) - 1) == term(total) - term(out.get(L - 1, 1)) + term(out.get(L - 1, 0)))

        def ghost(env, k):
            yield close(env.output, k + 1 - (env.stop - env.start))
        job.loops = [LoopSpec(["output", "start", "stop"], inv, lists={"output": 2}, nth=0, ghost=ghost)]
        out = I.call(fn, [arr])
        f_ = out.snapshot() if isinstance(out, SArr) else None
        if f_ is None:
            import numpy as np
            c.oblige(isinstance(out, np.ndarray) and out.ndim == 2 and int(out[:, 1].sum() - out[:, 0].sum()) == 0,
                     "no indices give no rows")
            c.oblige(compare("==", n, 0), "the constant result is for no indices")
            return
        f = lambda i, j: term(f_(SV(i) if z3.is_expr(i) else i, j))
        L = out.shape[0]
        c.assume(close(out, n))
        c.oblige(L >= 1, "there is a range for at least one index")
        for nm, g in rfa_facts(f, term(L), pos, x, n.t):
            c.oblige(g, nm)
        if strict:
            for nm, g in apart(f, term(L)):
                c.oblige(g, nm)
        Lt = term(L)
        c.oblige(pos(Lt - 1) + f(Lt - 1, 1) - f(Lt - 1, 0) == n.t, "the ranges cover all indices")
    return job.run(body)


def rfa_contract_values(c, job, x, n, strict):
    """What ranges_from_array returns for the n >= 1 indices x."""
    R = Ranges(c, name="ranges_of", ordered=strict, nonempty=True)
    pos = c.func("pos", "i", "i")
    c.assume(R.m >= 1)
    for nm, g in rfa_facts(lambda i, j: R.F(i, j), R.m.t, pos, x, n.t):
        c.assume(g)
    c.assume(pos(R.m.t - 1) + term(R.len(R.m - 1)) == n.t)
    return R, pos


def roundtrip_job():
    """Lemma over the two contracts: expand_ranges(ranges_from_array(x)) == x for every ascending x."""
    job = Job("expand_ranges(ranges_from_array(x)) == x", budget_s=60, feas_ms=1500)

    def body(job, I, c):
        n = c.int("n")
        c.assume(n >= 1)
        x = c.func("index", "i", "i")
        R, pos = rfa_contract_values(c, job, x, n, False)
        out = expand_contract(I, funcval(get("expand_ranges")), [R.arr], {})
        S = c.last_expand[0]
        # S == pos by induction over the ranges
        s, q, l = z3.Ints("s q l")
        job.add(V.Obligation("positions are the partial sums (induction step)", [s == q], s + l == q + l, "lemma", "", job.name))
        i = z3.Int("i!rt")
        c.assume(forall([i], z3.Implies(z3.And(i >= 0, i < R.m.t), S.S(i) == pos(i)), S.S(i)))
        S.unfold(R.m - 1)
        c.oblige(compare("==", out.shape[0], n), "as many indices come back")
        p = c.int("p")
        c.assume(land(p >= 0, p < n))
        c.assume(x(p.t) == x(p.t))
        c.oblige(compare("==", out.get(p), SV(x(p.t))), "every index comes back at its place")
    return job.run(body)
