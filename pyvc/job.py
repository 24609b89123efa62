"""A verification job: explore all paths of a piece of real code under a contract and collect obligations."""
import time

import z3

from . import values as V
from .arrays import SArr, SSel, compress, fresh_array, getitem, mask_selection
from .interp import Interp, LoopEnv
from .values import (SV, CannotAttach, Ctx, Infeasible, Obligation, PathEnd, Unsupported, as_bool, compare, concrete,
                     ctx, is_sym, kind, land, lnot, lor, mk, set_ctx, term)


class LoopSpec:
    """Invariant of one loop. `needs`: names that must be locals of the frame; `inv(env, k)` yields (name, formula);
    `lists`: locals that are lists growing in the loop -> row width (0 for scalars)."""

    def __init__(self, needs, inv, kindof="for", lists=None, variant=None, nth=0, fn=None, ghost=None):
        """`ghost(env, k)`: definitions of ghost values at the end of iteration k (assignments to ghost state that no
        assumption mentions before)."""
        self.ghost = ghost
        self.needs, self.invf, self.kindof, self.lists, self.variant, self.nth, self.fn = needs, inv, kindof, lists or {}, variant, nth, fn
        self.names = {}

    def inv(self, env, k):
        return list(self.invf(env, k)) if k is not None or self.kindof == "for" else list(self.invf(env))

    def prepare(self, I, fr):
        for n, w in self.lists.items():
            v = fr.locals.get(n)
            if isinstance(v, list):
                from .arrays import from_concrete, row_elems
                rows = list(v)
                if w:
                    a = SArr((0, w), lambda k, j: 0, "i", n, lst=True)
                else:
                    a = SArr((0,), lambda k: 0, "i", n, lst=True)
                for r in rows:
                    a.append(r)
                fr.locals[n] = a


class Budget(Exception):
    pass


class Job:
    """Explores every path of `body(job, interp, ctx)`."""

    native_limit = 400

    def __init__(self, name, mode="prove", feas_ms=400, bound=3, budget_s=120, max_paths=4000):
        self.name, self.mode, self.feas_ms, self.bound, self.while_bound = name, mode, feas_ms, bound, 3 * bound + 4
        self.budget_s, self.max_paths = budget_s, max_paths
        self.obligations = []
        self.seen = {}
        self.paths = 0
        self.ended = 0
        self.feas_time = 0.0
        self.inlined = set()
        self.assumed = set()
        self.contracts = {}
        self.overrides = {}
        self.loops = []
        self.used_bound = False
        self.events = []
        self.breaks = []
        self.reds = []
        self.reads = set()
        self.writes = set()
        self.on_write = None
        self.on_reduction = None
        self.super_models = {}
        self.unroll_names = ()
        self.complete = True
        self.axioms = []
        self.witness = None
        self.loop_vars = []

    # ---- exploration
    def run(self, body):
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        work = [[]]
        while work:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.complete = False
                raise Unsupported("path budget exhausted")
            dec = work.pop()
            c = Ctx(self, dec)
            c.local_objs = set()
            set_ctx(c)
            I = Interp(self)
            self.I = I
            c.interp = I
            self.paths += 1
            try:
                body(self, I, c)
                if c.entails(False):        # contradictory assumptions: nothing was proved on this path
                    self.vacuous = getattr(self, "vacuous", 0) + 1
                else:
                    self.ended += 1
            except PathEnd:
                pass
            work.extend(c.alternatives)
        set_ctx(None)
        if self.reads & self.writes:
            raise Unsupported("a summarised loop reads an array it writes")
        self.wall = time.time() - t0
        return self

    def check_budget(self):
        if time.time() > self.deadline:
            self.complete = False
            raise Unsupported("time budget exhausted")

    def add(self, ob):
        key = (ob.name, ob.where, ob.goal.get_id(), tuple(h.get_id() for h in ob.hyps))
        if key in self.seen:
            return
        self.seen[key] = ob
        self.obligations.append(ob)

    # ---- contracts
    def contract_for(self, fv):
        return self.contracts.get(fv.qual) or self.contracts.get(fv.qual.split(":")[1])

    def global_override(self, module, name):
        o = self.overrides.get((module, name))
        return o if o is not None else self.overrides.get(name)

    def super_model(self, me, k, name):
        h = self.super_models.get(name)
        return h(me) if h else None

    def loop_spec(self, I, node, fr):
        import ast
        want = "for" if isinstance(node, ast.For) else "while"
        for sp in self.loops:
            if sp.kindof != want:
                continue
            if sp.fn is not None and not (fr.fv.name == sp.fn or sp.fn == "*"):
                continue
            if all(n in fr.locals for n in sp.needs):
                if sp.nth is not None:
                    loops = [n for n in ast.walk(fr.fv.node) if isinstance(n, ast.For if want == "for" else ast.While)]
                    loops.sort(key=lambda n: n.lineno)
                    if loops.index(node) != sp.nth:
                        continue
                return sp
        return None

    def unroll(self, node, fr):
        return fr.fv.name in self.unroll_names

    # ---- summarised loops
    def write_event(self, c, arr, ix, op, val):
        ev = dict(arr=arr, name=arr.name, ix=ix, op=op, val=val, loops=[g for g in c.loops if True],
                  pc=list(c.pc), where=c.where, prefix=list(c.decisions[:c.pos]))
        ev["uid"] = arr.uid
        for g in c.loops[arr.depth:]:
            self.writes.add((arr.uid, g.uid, g.prefix))
        self.events.append(ev)
        if self.on_write is not None:
            self.on_write(c, ev)
        if any(g.parallel for g in c.loops):
            self.parallel_write(c, ev)

    def parallel_write(self, c, ev):
        """Two iterations of a parallel loop never write the same element of shared storage."""
        for g in c.loops:
            if not g.parallel or len(c.loops) and ev["arr"].depth > c.loops.index(g):
                continue
            inner = c.loops[c.loops.index(g):]
            sub = [(h.var.t, z3.Int(str(h.var.t) + "'")) for h in inner]
            ix1 = [term(i) for i in ev["ix"]]
            ix2 = [z3.substitute(t, *sub) for t in ix1]
            hyp2 = [z3.substitute(f, *sub) for f in c.pc]
            goal = z3.Not(z3.And(*[a == b for a, b in zip(ix1, ix2)]))
            c.oblige(SV(goal), f"parallel iterations write disjoint elements of {ev['name']}", kind="race",
                     hyps=hyp2 + [sub[0][0] != sub[0][1]])

    def break_event(self, c, g):
        self.breaks.append(dict(loop=g, pc=list(c.pc), where=c.where))
        if self.on_break is not None:
            self.on_break(c, g)
        else:
            c.oblige(False, "a summarised loop is not left early", kind="loop")

    on_break = None

    def reduction_event(self, c, name, v, fr):
        self.reds.append(dict(name=name, val=v, pc=list(c.pc), loops=list(c.loops), where=c.where, uid=c.loops[-1].uid))
        if self.on_reduction is not None:
            self.on_reduction(c, name, v)

    def array_reduction(self, c, arr, v, fr):
        for g in c.loops[arr.depth:]:
            self.writes.add((arr.uid, g.uid, g.prefix))
        self.events.append(dict(arr=arr, uid=arr.uid, name=arr.name, ix=None, op="array+=", val=v, loops=list(c.loops), pc=list(c.pc),
                                where=c.where))
        if self.on_array_reduction is not None:
            self.on_array_reduction(c, arr, v)

    on_array_reduction = None

    def reduced_value(self, c, uid, name, old):
        v = c.real("sum_" + name)
        h = self.reduced_hook
        if h is not None:
            r = h(c, uid, name, old, v)
            if r is not None:
                return r
        return v if kind(old) == "r" else (c.int("sum_" + name) if kind(old) == "i" else v)

    reduced_hook = None

    def after_loop(self, c, uid, prefix):
        """Arrays written by the loop hold an opaque accumulated value afterwards."""
        for ev in self.events:
            if ev["uid"] in c.arrays and any(g.uid == uid and g.prefix == prefix for g in ev["loops"]):
                a = c.arrays[ev["uid"]]
                if (a.attrs.get("acc"), uid) == (True, a.attrs.get("acc_uid")):
                    a.attrs["events"].append(ev)
                    continue
                if len(c.loops) > a.depth:
                    continue
                f = c.func("acc_" + a.name, *(["i"] * a.ndim), a.dt)
                a.fn = lambda *ix, f=f: SV(f(*[term(i) for i in ix]))
                a.total = None
                a.attrs.update(acc=True, acc_uid=uid, events=[ev])

    # ---- numpy helpers with quantified assumed contracts
    def prefix(self, n, f, name="prefix", nonneg=True):
        """Ghost partial sums S(0) = 0, S(i+1) = S(i) + f(i) of the integer sequence f(0..n-1); with f >= 0 they are
        monotone (the induction step is an obligation)."""
        return Prefix(self, n, f, name, nonneg)

    def sum_of(self, x):
        f = getattr(self, "sum_hook", None)
        if f is not None:
            r = f(x)
            if r is not None:
                return r
        return ctx().real("sum") if x.dt == "r" else ctx().int("sum")

    def mean_of(self, x):
        return ctx().real("mean")

    def argsort(self, a):
        """A permutation sorting `a` ascending (stable)."""
        c = ctx()
        n = a.shape[0]
        P = c.func("perm", "i", "i")
        Q = c.func("perminv", "i", "i")
        i, j = z3.Ints("i!s j!s")
        nn = term(n)
        f = a.snapshot()
        rng = lambda v: z3.And(v >= 0, v < nn)
        c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
        c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(Q(i)), P(Q(i)) == i)), patterns=[Q(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j),
                                              as_bool(compare("<=", f(SV(P(i))), f(SV(P(j)))))),
                           patterns=[z3.MultiPattern(P(i), P(j))]))
        r = SArr((n,), lambda k: SV(P(term(k))), "i", "order")
        r.attrs["inverse"] = lambda k: SV(Q(term(k)))
        return r

    def lexsort(self, keys):
        """Sort by the last key, then the ones before it: a permutation (ordering by the last key only is kept)."""
        return self.argsort(keys[-1])

    def concat(self, seq):
        """np.concatenate of a list of symbolic length: piece i starts at the number of rows in the pieces before it. The
        rows are known for the pairs (piece, row) in ctx().pairs."""
        c = ctx()
        k = c.int("any")
        ln = lambda i: seq.elem(i).shape[0]
        probe = seq.elem(k)
        S = self.prefix(seq.n, ln, "rows")
        out = fresh_array("joined", (S.total,) + tuple(probe.shape[1:]), probe.dt)
        g = out.fn
        for p in getattr(c, "pairs", []):
            i, j, rest = p[0], p[1], p[2:]
            S.unfold(i)
            ok = land(i >= 0, i < seq.n, j >= 0, j < ln(i))
            c.assume(z3.Implies(as_bool(ok), term(g(S(i) + j, *rest)) == term(seq.elem(i).get(j, *rest))))
        out.attrs["prefix"] = S
        return out

    def cumsum(self, a):
        c = ctx()
        n = term(a.shape[0])
        f = a.snapshot()
        dt = kind(f(c.int("any")))
        if dt not in ("i", "r"):
            raise Unsupported("running sum of something else than numbers")
        S = c.func("cumsum", "i", dt)
        i = z3.Int("i!c")
        c.assume(z3.Implies(n > 0, S(0) == term(f(0))))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < n), S(i + 1) == S(i) + term(f(SV(i + 1)))), patterns=[S(i + 1)]))
        return SArr(a.shape, lambda k: SV(S(term(k))), dt, "cumsum")

    def searchsorted(self, a, v, side):
        raise Unsupported("searchsorted")

    def nonzero(self, m):
        if isinstance(m, SSel) or m.ndim != 1:
            raise Unsupported("nonzero")
        sel = mask_selection(m)
        return SArr((sel.count,), lambda i: SV(sel.Z(term(i))), "i", "nonzero")


class Prefix:
    def __init__(self, job, n, f, name, nonneg):
        c = ctx()
        self.n, self.f, self.name = n, f, name
        self.S = c.func(name, "i", "i")
        c.assume(self.S(0) == 0)
        i, j = z3.Ints("i!p j!p")
        if nonneg:
            k = c.int("ind")
            old = list(c.pc)
            c.oblige(z3.Implies(z3.And(k.t >= 0, k.t < term(n)), term(f(k)) >= 0), f"{name}: summed lengths are not negative", kind="pre")
            ob_h = [self.S(i) <= self.S(j), self.S(j + 1) == self.S(j) + term(f(SV(j))), term(f(SV(j))) >= 0]
            job.add(Obligation("partial sums are monotone (induction step)", ob_h, self.S(i) <= self.S(j + 1), "lemma", c.where, job.name))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= term(n)), self.S(i) <= self.S(j)),
                               patterns=[z3.MultiPattern(self.S(i), self.S(j))]))

    def __call__(self, i):
        return SV(self.S(term(i)))

    def unfold(self, i):
        """The definition at one index."""
        c = ctx()
        c.assume(z3.Implies(z3.And(term(i) >= 0, term(i) < term(self.n)),
                            self.S(term(i) + 1) == self.S(term(i)) + term(self.f(i))))

    @property
    def total(self):
        return self(self.n)
