"""Contracts of the nearest-grid-point deposition (C20)."""
import z3

from checks import deposit as D
from checks.deposit import get, has_app
from pyvc import values as V
from pyvc.arrays import SArr, fresh_array
from pyvc.job import Job
from pyvc.values import SV, Unsupported, as_real, compare, ite, land, lor, term

MOD = "swiftsimio.visualisation.power_spectrum"


class Setup:
    def __init__(self, c):
        self.n, self.R = c.int("n"), c.int("res")
        c.assume(land(self.n >= 0, self.R >= 1))
        self.pos = [fresh_array("pos_" + a, (self.n,)) for a in "xyz"]
        self.m = fresh_array("m", (self.n,))
        self.fold = c.real("fold")
        self.box = [c.real("box_" + a) for a in "xyz"]
        c.assume(land(self.fold > 0, *[b > 0 for b in self.box]))
        self.args = self.pos + [self.m, self.R, self.fold] + self.box


def writes_job():
    """Every write is an in-bounds accumulation in the image."""
    job = Job("deposit [all writes]", budget_s=60)
    res = {}

    def body(job, I, c):
        st = Setup(c)
        r = I.call(get(MOD, "deposit"), st.args)
        if not isinstance(r, SArr):
            raise Unsupported("result is not an array")
        res["uid"] = r.view_of[0].uid if r.view_of is not None else r.uid
        c.oblige(len(r.shape) == 3, "the image has three axes")
        for a, n in zip("xyz", r.shape):
            c.oblige(compare("==", n, st.R), f"the image has the requested resolution (axis {a})")
    job.run(body)
    roles = {}
    for ev in job.events:
        if ev["uid"] != res.get("uid"):
            continue
        if ev["op"] != "+=":
            job.add(V.Obligation(f"cells only accumulate (write {ev['op']})", ev["pc"], z3.BoolVal(False), "post", ev["where"], job.name))
        for g in ev["loops"]:
            roles[id(g.node)] = ("particle",) if any(has_app(term(x), "pos_", g.var.t) for x in [*ev["ix"], ev["val"], *ev["pc"]]) else ("?",)
    return job, roles


def fold_lemmas(c, x, t, u, cell, wu, R, n, floors, ax):
    """Steps of the argument for code that folds with `x % b`: the remainder over b is u (or 1, where rounding attains the
    upper end and u is 0), so the cell is the same."""
    def lem(g, name):
        c.oblige(g, f"lemma ({ax}): {name}", kind="lemma")
    for x0, m, r, k in c.mods:
        if not x0.eq(term(x)):
            continue
        ib = c.inverse(m)
        lem(m > 0, "the folded box is not empty")
        lem(m * ib == 1, "inverse of the folded box")
        lem(term(t) == x0 * ib, "position in units of the folded box")
        v = c.real("v").t
        c.assume(v == r * ib)
        lem(x0 * ib == m * ib * z3.ToReal(k) + r * ib, "distributing the inverse")
        lem(term(t) == z3.ToReal(k) + v, "whole boxes and remainder")
        lem(z3.And(v >= 0, v <= 1), "the remainder is within the box")
        f = c.floor_of(as_real(t))
        lem(z3.Or(z3.And(v < 1, k == f, v == as_real(u)), z3.And(v == 1, k == f - 1, as_real(u) == 0)), "the remainder is u, or 1 where u is 0")
        for ft, fn in floors:
            if not has_sym(ft, r):
                continue
            w = c.real("w").t
            c.assume(w == v * as_real(R))
            lem(ft == w, "the scaled remainder")
            lem(z3.Implies(v == as_real(u), w == as_real(wu)), "the scaled remainder is the scaled position")
            lem(z3.Implies(v == 1, w == as_real(R)), "at the upper end")
            lem(z3.Implies(as_real(u) == 0, as_real(wu) == 0), "at the lower end")
            lem(z3.Or(fn == term(cell), z3.And(fn == term(n), term(cell) == 0)), "the cell is the specified one, or one past the end")
            p = SV(fn) % n
            lem(compare("==", p, cell), "wrapped into the image, the cell is the specified one")


def has_sym(t, v):
    st = [t]
    while st:
        y = st.pop()
        if y.eq(v):
            return True
        st.extend(y.children())
    return False


def one_job():
    """What one particle adds to one cell: its mass over the cell's volume in the cell of its wrapped position, nothing elsewhere."""
    _, roles = writes_job()
    job = Job("deposit [one particle, one cell]", budget_s=60)

    def witness(node, seq, fr):
        return V.ctx().wit if roles.get(id(node)) == ("particle",) else None
    job.witness = witness

    def body(job, I, c):
        st = Setup(c)
        i = c.int("i")
        c.assume(land(i >= 0, i < st.n))
        c.wit = i
        p = [c.int("cell_" + a) for a in "xyz"]
        for q in p:
            c.assume(land(q >= 0, q < st.R))
        r = I.call(get(MOD, "deposit"), st.args)
        got = r.get(*p)
        floors = list(c.floors)
        R = SV(as_real(st.R))
        cells = []
        for a in range(3):
            # u in [0, 1): the position folded into a box smaller by the factor, in units of that box
            t = st.pos[a].get(i) / (st.box[a] / st.fold)
            u = t - SV(z3.ToReal(c.floor_of(as_real(t))))
            c.oblige(land(u >= 0, u < 1), f"lemma: the folded position is in the unit interval ({'xyz'[a]})", kind="lemma")
            wu = c.real("scaled")
            c.assume(compare("==", wu, u * R))
            c.oblige(land(wu >= 0, wu < R), f"lemma: the scaled position is inside the image ({'xyz'[a]})", kind="lemma")
            cell = SV(c.floor_of(as_real(wu)))
            c.oblige(land(cell >= 0, cell < st.R), f"the cell of the folded position is inside the image ({'xyz'[a]})")
            cells.append(cell)
            fold_lemmas(c, st.pos[a].get(i), t, u, cell, wu, R, st.R, floors, "xyz"[a])
        hit = land(*[compare("==", x, q) for x, q in zip(cells, p)])
        want = st.m.get(i) * (R * R * R) * (st.fold * st.fold * st.fold)
        c.oblige(z3.Implies(V.as_bool(hit), V.as_bool(compare("==", got, want))), "the particle's cell gets its mass times the inverse cell volume")
        c.oblige(z3.Implies(z3.Not(V.as_bool(hit)), V.as_bool(compare("==", got, 0))), "the other cells get nothing")
    return job.run(body)
