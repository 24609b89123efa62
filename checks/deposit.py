"""Contracts of the deposition loops (projection, slice, volume), shared by C13-C17.

For a scatter-like function the image is a sum over iterations of (particle, shift vector, pixel). The generic pass
checks that every write is an in-bounds `+=` with no loop-carried state and that each write of a resolved particle goes
to the pixel named by its pixel loops. The single-iteration pass then runs the real body for one arbitrary particle,
one arbitrary shift vector and one arbitrary pixel (p, q[, r]) and requires that what is added to that pixel equals the
specified contribution -- including zero additions where the code never reaches the pixel."""
import importlib

import z3

from pyvc import values as V
from pyvc.arrays import SArr, fresh_array
from pyvc.interp import funcval, unwrap
from pyvc.job import Job
from pyvc.values import (SV, CannotAttach, Unsupported, as_bool, as_real, compare, concrete, is_sym, ite, land, lnot,
                         lor, mk, term)

R = z3.RealSort()


def get(mod, name):
    import sys
    importlib.import_module(mod)
    return getattr(sys.modules[mod], name)


class Spec:
    """One deposition function and what a particle must contribute."""

    def __init__(self, name, mod, fn, dim, kernels, gamma=None, threshold=1.0, style="centre", slice_=False, limited=False,
                 resolved_min=None, gpu=False):
        self.name, self.mod, self.fn, self.dim, self.kernels, self.gamma = name, mod, fn, dim, kernels, gamma
        self.threshold, self.style, self.slice_, self.limited, self.resolved_min = threshold, style, slice_, limited, resolved_min


PB = "swiftsimio.visualisation.projection_backends."
KS = PB + "kernels:kernel_single_precision"
KD = PB + "kernels:kernel_double_precision"
SPH = "swiftsimio.visualisation.slice_backends.sph"
K3 = SPH + ":kernel"
VOL = "swiftsimio.visualisation.volume_render_backends.scatter"

PROJECTIONS = [
    Spec("fast", PB + "fast", "scatter", 2, [KS], "kernel_gamma"),
    Spec("histogram", PB + "histogram", "scatter", 2, [], None, style="point"),
    Spec("reference", PB + "reference", "scatter", 2, [KD], "kernel_gamma", resolved_min=2.0),
    Spec("renormalised", PB + "renormalised", "scatter", 2, [KS], "kernel_gamma", style="renorm"),
    Spec("subsampled", PB + "subsampled", "scatter", 2, [KD], "kernel_gamma", style="subsample", resolved_min=0.25),
    Spec("subsampled_extreme", PB + "subsampled_extreme", "scatter", 2, [KD], "kernel_gamma", style="subsample", resolved_min=0.25),
]
SLICE = Spec("slice", SPH, "slice_scatter", 3, [K3], "kernel_gamma", slice_=True, threshold=0.0)
VOLUME = Spec("volume", VOL, "scatter", 3, [K3], "kernel_gamma", threshold=0.5)
VOLUME_Z = Spec("volume_limited_z", VOL, "scatter_limited_z", 3, [K3], "kernel_gamma", threshold=0.5, limited=True)

KF = z3.Function("Kernel", R, R, R)


def kernel_contract(I, fv, args, kw):
    """Contract of the kernels (proved separately): defined for r >= 0, H > 0; non-negative; zero from H on."""
    c = V.ctx()
    a = dict(zip([x.arg for x in fv.node.args.args], args))
    a.update(kw)
    vals = [a[x.arg] for x in fv.node.args.args]
    r, H = vals[0], vals[1]
    c.oblige(compare(">", H, 0), "kernel called with a positive support", kind="pre")
    t = KF(as_real(r), as_real(H))
    c.assume(t >= 0)
    c.assume(z3.Implies(as_real(r) >= as_real(H), t == 0))
    I.job.assumed.add("contract:" + fv.qual)
    return SV(t)


class Setup:
    """Symbolic arguments of a deposition function."""

    def __init__(self, spec, c, periodic):
        self.c, self.spec = c, spec
        d = spec.dim
        self.n = c.int("n")
        c.assume(self.n >= 0)
        self.R = c.int("res")
        c.assume(self.R >= 1)
        self.res = [self.R] * d
        self.pos = [fresh_array("pos_" + "xyz"[a], (self.n,)) for a in range(d)]
        self.m = fresh_array("m", (self.n,))
        self.h = fresh_array("h", (self.n,))
        self.box = []
        for a in range(d):
            b = c.real("box_" + "xyz"[a])
            if periodic is None:
                c.assume(b >= 0)
                self.box.append(b)
            elif periodic[a]:
                c.assume(b > 0)
                self.box.append(b)
            else:
                self.box.append(0.0)
        self.args = list(self.pos) + [self.m, self.h]
        kw = {}
        if spec.slice_:
            self.zs = c.real("z_slice")
            self.R2 = c.int("yres")
            c.assume(self.R2 >= 1)
            self.res = [self.R, self.R2]
            self.Rmax = c.interp.call(max, [self.R, self.R2])
            self.args += [self.zs, self.R, self.R2]
        else:
            self.args += [self.R]
        self.Rs = list(self.res)
        if spec.limited:
            self.ratio = c.int("ratio")
            c.assume(self.ratio >= 1)
            c.assume(self.ratio <= self.R)
            self.args += [self.ratio]
            self.Rs[2] = self.R // self.ratio
            c.assume(self.Rs[2] >= 1)
        for a in range(d):
            kw["box_" + "xyz"[a]] = self.box[a]
        self.kw = kw
        self.gamma = V.canon(get(spec.mod, spec.gamma)) if spec.gamma else None

    def assume_particle(self, i):
        """Valid particle: positive smoothing length."""
        self.c.assume(self.h.get(i) > 0)

    def image_shape(self):
        return tuple(self.Rs)


def setup_job(spec, name, P):
    job = Job(name, budget_s=100)
    for k in spec.kernels:
        job.contracts[k] = kernel_contract
    job.sum_hook = lambda x: None
    job.native_limit = 40
    return job


def has_app(t, decl_prefix, var):
    """Does t contain f(var) for an application whose name starts with decl_prefix?"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().name().startswith(decl_prefix) and any(a.eq(var) for a in x.children()):
                return True
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return False


def has_product(t, var, const):
    st, seen = [t], set()

    def is_var(x):
        return x.eq(var) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL and x.arg(0).eq(var))
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL:
                ch = x.children()
                if any(is_var(a) for a in ch) and any(a.eq(const) for a in ch):
                    return True
            st.extend(x.children())
    return False


def generic_pass(spec, P, resolved_only=False, all_periodic=None):
    """Bounds of every write, pinning of pixel loops, no loop-carried state. Returns loop roles (by AST node)."""
    job = setup_job(spec, f"{spec.name}.{spec.fn} [all writes]", P)
    roles = {}

    result = {}

    def classify(ev):
        if ev["op"] != "+=":
            job.add(V.Obligation(f"pixels only accumulate (write {ev['op']})", ev["pc"], z3.BoolVal(False), "post", ev["where"], job.name))
        st = ev["setup"]
        terms = [term(x) for x in ev["ix"]] + [term(ev["val"])] + list(ev["pc"])
        for g in ev["loops"]:
            v = g.var.t
            if id(g.node) in roles and roles[id(g.node)][0] != "?":
                continue
            role = ("?",)
            for a, x in enumerate(ev["ix"]):
                if term(x).eq(v):
                    role = ("pixel", a)
            if role[0] == "?" and any(has_app(t, "pos_", v) for t in terms):
                role = ("particle",)
            if role[0] == "?":
                for a, b in enumerate(st.box):
                    if is_sym(b) and any(has_product(t, v, b.t) for t in terms):
                        role = ("shift", a)
            roles[id(g.node)] = role

    def on_write(c, ev):
        ev["setup"] = c.setup
    job.on_write = on_write

    def on_break(c, g):
        # a loop left early is only sound when the particle is declined altogether
        st = c.setup
        i = next(x for x in c.loops if roles_particle(x, c))
        H = st.gamma * st.h.get(i.var) if st.gamma is not None else 0
        c.spec = True
        if spec.resolved_min is None:
            c.oblige(False, "no iteration is skipped by leaving a loop early", kind="loop")
        else:
            c.oblige(compare("<", H * st.R, spec.resolved_min), "a loop is left early only for under-resolved particles",
                     kind="loop")
        c.spec = False

    def roles_particle(g, c):
        return g.rng is None
    job.on_break = on_break

    def body(job, I, c):
        st = Setup(spec, c, all_periodic)
        c.setup = st
        i = z3.Int("i!all")
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.n.t), term(st.h.get(SV(i))) > 0),
                           patterns=[term(st.h.get(SV(i)))]))
        r = I.call(get(spec.mod, spec.fn), st.args, st.kw)
        if not isinstance(r, SArr):
            raise Unsupported("result is not an array")
        result["uid"] = r.view_of[0].uid if r.view_of is not None else r.uid
        for a, (x, y) in enumerate(zip(r.shape, st.image_shape())):
            c.oblige(compare("==", x, y), f"image has the requested shape (axis {a})", kind="post")
        c.oblige(len(r.shape) == len(st.image_shape()), "image has the requested number of axes", kind="post")
    job.run(body)
    for ev in job.events:
        if ev["ix"] is None:
            raise Unsupported("whole-array accumulation")
        if ev["uid"] == result.get("uid"):
            classify(ev)
    return job, roles


def spec_contribution(spec, st, i, s, px, cell, norm):
    """What particle i, moved by shift vector s, must add to pixel px (None: left to the style's own clause)."""
    c = st.c
    d = 2 if (spec.dim == 2 or spec.slice_) else 3
    m = st.m.get(i)
    pos = [st.pos[a].get(i) + s[a] * st.box[a] for a in range(spec.dim)]
    Rs = [st.Rmax] * 2 if spec.slice_ else st.Rs
    invs = [1.0 / V.SV(as_real(r)) for r in Rs]
    dist2 = 0
    for a in range(d):
        dx = (px[a] + 0.5) * invs[a] - pos[a]
        dist2 = dist2 + dx * dx
    if spec.slice_:
        dz = pos[2] - st.zs
        dist2 = dist2 + dz * dz
    H = st.gamma * st.h.get(i) if st.gamma is not None else None
    vol = 1
    for a in range(d):
        vol = vol * V.SV(as_real(Rs[a]))
    point = ite(land(*[compare("==", cell[a], px[a]) for a in range(d)]), m * vol, 0.0)
    return dict(m=m, pos=pos, H=H, dist2=dist2, point=point, vol=vol, invs=invs)


def match_radii(c, sqrts, dist2, rr, D2):
    """Lemmas: the radii the code computed are the specified radius."""
    for t, r in sqrts:
        if t.eq(as_real(dist2)):
            continue
        c.oblige(compare("==", SV(t - as_real(dist2)), 0), "lemma: the code's squared distance is the specified one", kind="lemma")
        c.oblige(compare(">=", SV(r), 0), "lemma: the code's radius is non-negative", kind="lemma")
        c.oblige(compare("==", SV(t), D2), "lemma: the code's squared distance", kind="lemma")
        c.oblige(compare("==", SV(r * r), D2), "lemma: the code's radius squared", kind="lemma")
        c.oblige(compare("==", SV(r * r), rr * rr), "lemma: the code's radius squared is the radius squared", kind="lemma")
        c.oblige(compare("==", SV(r), rr), "lemma: the code's radius", kind="lemma")


def iteration_pass(spec, P, roles, periodic, sub=None, tag="", shift_spec=False):
    """One particle, one shift vector, one pixel."""
    job = setup_job(spec, f"{spec.name}.{spec.fn} [one particle, one pixel{tag}]", P)
    d = 2 if (spec.dim == 2 or spec.slice_) else 3
    reds = []

    def witness(node, seq, fr):
        c = V.ctx()
        role = roles.get(id(node))
        if role is None or role[0] == "?":
            return None
        if role[0] == "particle":
            return c.wit["i"]
        if role[0] == "shift":
            return c.wit["s"][role[1]]
        return c.wit["p"][role[1]]
    job.witness = witness

    def on_red(c, name, v):
        """One summand of the kernel sum over pixels (renormalisation) or over sub-samples."""
        if spec.style not in ("renorm", "subsample") or len(c.loops) != 2 or any(g.rng is None for g in c.loops):
            raise CannotAttach("sum of a form the contract does not know")
        g = c.geo
        gx, gy = c.loops
        if spec.style == "subsample":
            F = SV(as_real(gx.rng[1]))
            for q, ax in ((gx, "x"), (gy, "y")):
                c.oblige(land(compare("==", q.rng[0], 0), compare("==", q.rng[1], gx.rng[1])),
                         f"sub-samples along {ax} are 0 .. F - 1", kind="post")
            at = [g["p"][k] + (q.var + 0.5) / F for k, q in enumerate((gx, gy))]
        else:
            at = [q.var + 0.5 for q in (gx, gy)]
        d2 = 0
        for k in range(2):
            dx = at[k] * g["invs"][k] - g["shifted"][k]
            d2 = d2 + dx * dx
        c.spec = True
        mine = list(c.sqrts)
        rr = V.sqrt(d2)
        D2 = c.real("sum2")
        c.assume(compare("==", D2, d2))
        c.oblige(compare(">=", d2, 0), "lemma: squared distance is non-negative", kind="lemma")
        c.oblige(compare(">=", rr, 0), "lemma: radius non-negative", kind="lemma")
        c.oblige(compare("==", rr * rr, D2), "lemma: radius squared", kind="lemma")
        match_radii(c, mine[-1:], d2, rr, D2)
        kv = SV(KF(as_real(rr), as_real(g["H"])))
        c.oblige(compare("==", v, kv), "summand = kernel at the centre of its pixel or sub-sample", kind="post")
        c.spec = False
    job.on_reduction = on_red

    def reduced(c, uid, n, old, v):
        if c.loops:
            return v
        red = [r for r in job.reds if r["loops"] and r["loops"][0].uid == uid]
        if not red or not (concrete(old) == 0 if not is_sym(concrete(old)) else False):
            raise CannotAttach("sum that does not start at zero")
        c.redvals = getattr(c, "redvals", [])
        c.redvals.append((v, red[-1]["loops"]))
        c.assume(compare(">=", v, old))
        return v
    job.reduced_hook = reduced

    def body(job, I, c):
        c.reds = []
        st = Setup(spec, c, periodic)
        i = c.int("i")
        c.assume(land(compare(">=", i, 0), compare("<", i, st.n)))
        st.assume_particle(i)
        s = []
        for a in range(spec.dim):
            if periodic is not None and periodic[a]:
                s.append(c.int("shift_" + "xyz"[a]))
            else:
                s.append(0)
        p = [c.int("pix_" + "xyz"[a]) for a in range(d)]
        for a in range(d):
            c.assume(land(compare(">=", p[a], 0), compare("<", p[a], st.Rs[a])))
        c.wit = dict(i=i, s=s, p=p)
        xs = [st.pos[a].get(i) for a in range(spec.dim)]
        H = st.gamma * st.h.get(i) if st.gamma is not None else None
        if H is not None:
            c.assume(compare(">", H, 0))
        if shift_spec:
            for a in range(spec.dim):
                if periodic[a]:
                    c.assume(land(compare(">=", xs[a], 0), compare("<", xs[a], st.box[a])))
                    if H is not None:
                        c.assume(compare("<=", H, st.box[a]))
            if spec.slice_ and periodic[2]:
                # the caller wraps the slice height into the box
                c.assume(land(compare(">=", st.zs, 0), compare("<=", st.zs, st.box[2])))
        Rs = [st.Rmax] * 2 if spec.slice_ else st.Rs
        minres = None
        if spec.resolved_min is not None:
            c.assume(compare(">" if spec.style == "subsample" else ">=", H * V.SV(as_real(st.R)), spec.resolved_min))
        shifted = [xs[a] + s[a] * st.box[a] for a in range(spec.dim)]
        c.geo = dict(p=p, H=H, shifted=shifted, invs=[1.0 / V.SV(as_real(x)) for x in Rs])
        r = I.call(get(spec.mod, spec.fn), st.args, st.kw)
        got = r.get(*p)
        # ---- specification
        cell = [SV(c.floor_of(as_real(V.SV(as_real(Rs[a])) * shifted[a]))) for a in range(d)]
        sp = spec_contribution(spec, st, i, s, p, cell, None)
        dist2, point = sp["dist2"], sp["point"]
        # per-axis separation lemma: a support that reaches the pixel reaches it on each axis
        axes = []
        for a in range(d):
            dx = (p[a] + 0.5) * sp["invs"][a] - shifted[a]
            axes.append(dx)
        if spec.slice_:
            axes.append(shifted[2] - st.zs)
        if H is not None:
            mine = list(c.sqrts)
            rr = V.sqrt(dist2)
            kv = SV(KF(as_real(rr), as_real(H)))
            c.assume(kv.t >= 0)
            c.assume(z3.Implies(as_real(rr) >= as_real(H), kv.t == 0))
            c.oblige(compare(">=", dist2, 0), "squared distance is non-negative", kind="lemma")
            D2 = c.real("dist2")
            c.assume(compare("==", D2, dist2))
            c.oblige(compare(">=", rr, 0), "lemma: radius non-negative", kind="lemma")
            c.oblige(compare("==", rr * rr, D2), "lemma: radius squared", kind="lemma")
            c.oblige(V.implies(compare(">=", D2, H * H), compare(">=", rr, H)), "lemma: radius beyond the support", kind="lemma")
            c.oblige(V.implies(compare(">=", D2, H * H), compare("==", kv, 0)), "lemma: no contribution beyond the support", kind="lemma")
            sqs = [c.real("sq_%d" % a) for a in range(len(axes))]
            for a, (q, dx0) in enumerate(zip(sqs, axes)):
                dx = c.real("d_%d" % a)
                c.assume(compare("==", dx, dx0))
                axes[a] = dx
                if a < d:
                    Ra = V.SV(as_real(Rs[a]))
                    c.oblige(compare("==", dx * Ra, (p[a] + 0.5) - Ra * shifted[a]), f"lemma: axis {a} distance in pixels", kind="lemma")
                c.assume(compare("==", q, dx * dx))
                c.oblige(compare(">=", q, 0), "lemma: squares are non-negative", kind="lemma")
            tot = 0
            for q in sqs:
                tot = tot + q
            c.oblige(compare("==", D2, tot), "lemma: distance from the separations", kind="lemma")
            if is_sym(concrete(got)):
                match_radii(c, mine, dist2, rr, D2)
            HH2 = c.real("H2")
            c.assume(compare("==", HH2, H * H))
            for a, dx in enumerate(axes):
                # |dx| >= H -> r >= H
                c.oblige(V.implies(lor(compare(">=", dx, H), compare("<=", dx, -H)), compare(">=", sqs[a], HH2)),
                         f"lemma: square of the separation along axis {a}", kind="lemma")
                c.oblige(V.implies(compare(">=", sqs[a], HH2), compare(">=", D2, HH2)),
                         f"lemma: separation along axis {a} bounds the distance", kind="lemma")
                c.oblige(V.implies(lor(compare(">=", dx, H), compare("<=", dx, -H)), compare("==", kv, 0)),
                         f"lemma: no contribution beyond the support along axis {a}", kind="lemma")
        if shift_spec:
            for a in range(spec.dim):
                if not periodic[a]:
                    continue
                b, HH = st.box[a], (H if H is not None else 0.0)
                c.oblige(V.implies(compare("<=", s[a], -2), compare("<=", s[a] * b, -2.0 * b)), f"lemma: low shifts {a}", kind="lemma")
                lowout = compare("<", shifted[a], -HH)
                c.oblige(V.implies(compare("<=", s[a], -2), lowout), f"lemma: low images lie beyond the image {a}", kind="lemma")
                c.oblige(V.implies(compare(">=", s[a] - 1, 1.0 / b), compare(">=", (s[a] - 1) * b, 1)), f"lemma: high shifts {a}", kind="lemma")
                highout = compare(">=", shifted[a], 1 + HH)
                c.oblige(V.implies(compare(">=", s[a] - 1, 1.0 / b), highout), f"lemma: high images lie beyond the image {a}", kind="lemma")
                if a < d:
                    Ra = V.SV(as_real(Rs[a]))
                    c.oblige(V.implies(lowout, compare("<", Ra * shifted[a], -(HH * Ra))), f"lemma: low images in pixels {a}", kind="lemma")
                    c.oblige(V.implies(highout, compare(">=", Ra * shifted[a], Ra + HH * Ra)), f"lemma: high images in pixels {a}", kind="lemma")
        if spec.style == "point":
            goal = compare("==", got, point)
            c.oblige(goal, "contribution to the pixel = mass / pixel area if the pixel contains the position, else 0")
            return
        # scale lemmas: pixel distance in units of pixels
        for a in range(d):
            Ra = V.SV(as_real(Rs[a]))
            u = (p[a] + 0.5) - Ra * shifted[a]
            c.oblige(V.implies(compare(">=", u, H * Ra), compare(">=", axes[a], H)), f"lemma: beyond support (+) {a}", kind="lemma")
            c.oblige(V.implies(compare("<=", u, -(H * Ra)), compare("<=", axes[a], -H)), f"lemma: beyond support (-) {a}", kind="lemma")
        small = land(*[True])
        if spec.threshold:
            small = lor(*[compare("<", H * V.SV(as_real(x)), spec.threshold) for x in
                          ({0: Rs[0], 1: Rs[2]}.values() if spec.limited else [Rs[0]])])
        else:
            small = False
        if spec.style == "centre":
            want = ite(small, point, sp["m"] * kv)
            if spec.resolved_min is not None:
                want = sp["m"] * kv
            if not is_sym(concrete(got)) and concrete(got) == 0:
                # nothing was added: the pixel must be outside the support, or must not contain the unresolved particle
                if small is not False and spec.resolved_min is None:
                    c.oblige(V.implies(small, lnot(land(*[compare("==", cell[a], p[a]) for a in range(d)]))),
                             "a pixel that receives nothing does not contain the unresolved particle")
                c.oblige(V.implies(lnot(small) if spec.resolved_min is None else True, compare("==", kv, 0)),
                         "a pixel that receives nothing lies outside the kernel support")
                return
            c.oblige(compare("==", got, want), "contribution to the pixel = mass x kernel at the pixel centre (whole mass to the containing pixel when smaller than a pixel)")
        elif spec.style == "renorm":
            c.oblige(V.implies(small, compare("==", got, point)), "an unresolved particle puts its whole mass into the pixel that contains it")
            rv = getattr(c, "redvals", [])
            if is_sym(concrete(got)):
                ks = rv[-1][0] if rv else None
                if ks is None:
                    c.oblige(small, "a contribution that is not normalised belongs to an unresolved particle")
                    return
                for a_, g_ in enumerate(rv[-1][1]):
                    c.oblige(land(compare("<=", g_.rng[0], p[a_]), compare("<", p[a_], g_.rng[1])),
                             f"the normalisation covers every pixel that receives a share (axis {a_})")
                    qq = c.int("q%d" % a_)
                    u = (qq + 0.5) - V.SV(as_real(Rs[a_])) * shifted[a_]
                    HR = H * V.SV(as_real(Rs[a_]))
                    c.oblige(V.implies(lnot(land(compare("<=", g_.rng[0], qq), compare("<", qq, g_.rng[1]))),
                                       lor(compare(">=", u, HR), compare("<=", u, -HR))),
                             f"the normalisation covers the whole kernel support, also beyond the image (axis {a_})")
                # the sum of non-negative summands is at least the one of the particle's own pixel, which is positive
                own = 0
                for a_, g_ in enumerate(rv[-1][1]):
                    c.oblige(land(compare("<=", g_.rng[0], cell[a_]), compare("<", cell[a_], g_.rng[1])),
                             f"the normalisation includes the particle's own pixel (axis {a_})")
                    dx = (cell[a_] + 0.5) * sp["invs"][a_] - shifted[a_]
                    Ra = V.SV(as_real(Rs[a_]))
                    c.oblige(compare("==", dx * Ra, (cell[a_] + 0.5) - Ra * shifted[a_]), f"lemma: own pixel distance {a_}", kind="lemma")
                    c.oblige(compare("<=", dx * dx * Ra * Ra, 0.25), f"lemma: own pixel within half a pixel {a_}", kind="lemma")
                    own = own + dx * dx
                R0 = V.SV(as_real(Rs[0]))
                c.oblige(compare("<=", own * R0 * R0, 0.5), "lemma: own pixel distance", kind="lemma")
                c.oblige(V.implies(lnot(small), compare("<", own, H * H)), "lemma: own pixel inside the support", kind="lemma")
                ro = V.sqrt(own)
                ko = KF(as_real(ro), as_real(H))
                c.assume(z3.Implies(as_real(ro) < as_real(H), ko > 0))
                c.assume(ks.t >= ko)
                c.oblige(V.implies(lnot(small), compare("<", ro, H)), "lemma: own pixel radius", kind="lemma")
                c.oblige(V.implies(lnot(small), compare(">", ks, 0)), "the normalisation is positive")
                c.oblige(V.implies(lnot(small), compare("==", got * ks, sp["m"] * kv * sp["vol"])),
                         "contribution = mass x kernel / (pixel area x sum of the kernel over its pixels)")
            else:
                c.oblige(V.implies(lnot(small), compare("==", kv, 0)), "a pixel that receives nothing lies outside the kernel support")
        elif spec.style == "subsample":
            subs = getattr(c, "redvals", [])
            if not is_sym(concrete(got)):
                # no contribution: every point of the pixel is outside the support
                tpt = [c.real("t%d" % a) for a in range(d)]
                for t in tpt:
                    c.assume(land(compare(">=", t, 0), compare("<=", t, 1)))
                d2 = 0
                for a in range(d):
                    dx = (p[a] + tpt[a]) * sp["invs"][a] - shifted[a]
                    Ra = V.SV(as_real(Rs[a]))
                    u = (p[a] + tpt[a]) - Ra * shifted[a]
                    c.oblige(compare("==", dx * Ra, u), f"lemma: sub-sample distance in pixels {a}", kind="lemma")
                    c.oblige(V.implies(compare(">=", u, H * Ra), compare(">=", dx, H)), f"lemma: beyond support (+) sub {a}", kind="lemma")
                    c.oblige(V.implies(compare("<=", u, -(H * Ra)), compare("<=", dx, -H)), f"lemma: beyond support (-) sub {a}", kind="lemma")
                    c.oblige(V.implies(lor(compare(">=", dx, H), compare("<=", dx, -H)), compare(">=", dx * dx, H * H)), f"lemma: squares {a}", kind="lemma")
                    d2 = d2 + dx * dx
                c.oblige(compare(">=", d2, H * H), "a pixel that receives nothing lies entirely outside the kernel support")
            else:
                if not subs:
                    raise CannotAttach("no sub-sample sum")
                S, gs = subs[-1]
                F = gs[0].rng[1]
                c.oblige(compare("==", got * F * F, sp["m"] * S), "contribution = mass x mean of the kernel over the sub-samples")

    job.run(body)
    return job


def roles_known(roles):
    return {k for k, v in roles.items() if v[0] != "?"}


# ------------------------------------------------------------------ kernels
def kernel_job(ref, dim):
    """The kernel's own contract: defined for r >= 0 and H > 0; non-negative, zero from H on, positive inside, and
    bounded by a multiple of (1 - r/H) so that it falls to zero continuously at the edge."""
    mod, name = ref.split(":")
    job = Job(f"{mod.split('.')[-1]}.{name}", budget_s=60)

    def body(job, I, c):
        r, H = c.real("r"), c.real("H")
        c.assume(land(compare(">=", r, 0), compare(">", H, 0)))
        k = I.call(get(mod, name), [r, H])
        q = r / H
        c.oblige(compare("==", q * H, r), "lemma: ratio", kind="lemma")
        c.oblige(V.implies(compare(">=", r, H), compare(">=", q, 1)), "lemma: outside", kind="lemma")
        c.oblige(V.implies(compare("<", r, H), compare("<", q, 1)), "lemma: inside", kind="lemma")
        c.oblige(compare(">=", q, 0), "lemma: ratio non-negative", kind="lemma")
        c.oblige(compare(">=", k, 0), "the kernel is non-negative")
        c.oblige(V.implies(compare(">=", r, H), compare("==", k, 0)), "the kernel vanishes from its support radius on")
        c.oblige(V.implies(compare("<", r, H), compare(">", k, 0)), "the kernel is positive inside its support")
        Hd = H * H if dim == 2 else H * H * H
        t = 1.0 - q
        norm = {2: 2.228169203286535, 3: 3.3422538049298023}[dim]
        w = norm * t * t * t * t * (1.0 + 4.0 * q)
        diff = k * Hd - w
        c.oblige(V.implies(compare("<", r, H), land(compare("<=", diff, 1e-5 * w), compare(">=", diff, -1e-5 * w))),
                 "inside the support the kernel is the normalised Wendland C2 kernel (to 1e-5)")
    job.run(body)
    return job


# ------------------------------------------------------------------ parallel drivers
def parallel_job(mod, fn, serial, dim, extra, arrays, result_axes):
    """Every particle goes to exactly one worker, with the caller's arguments, and the results are summed.

    `extra`: names of the scalar arguments; `result_axes(args)`: shape of the image."""
    job = Job(f"{mod.split('.')[-1]}.{fn} [partition]", budget_s=60)
    serial = [serial] if isinstance(serial, str) else serial
    fpar = get(mod, fn)
    names = [a.arg for a in funcval(fpar).node.args.args]
    missing = [a for a in arrays + extra if a not in names]
    if missing:
        raise CannotAttach(f"{fn} has no argument {missing}")
    paths = []

    def contract(I, fv, args, kw):
        c = V.ctx()
        a = dict(zip([x.arg for x in fv.node.args.args], args))
        a.update(kw)
        for nm in arrays:
            if nm not in a:
                raise CannotAttach(f"worker argument {nm}")
        rec = dict(args=a)
        out = fresh_array("worker_image", result_axes(dict(c.outer, **{k: v for k, v in a.items() if k in extra})), "r")
        rec["out"] = out
        c.calls.append(rec)
        I.job.assumed.add("contract:" + fv.qual)
        return out
    for s in serial:
        job.contracts[funcval(get(mod, s)).qual] = contract

    def witness(node, seq, fr):
        if not seq.parallel:
            return None
        c = V.ctx()
        c.par.append(seq)
        return c.t
    job.witness = witness

    def body(job, I, c):
        T = c.int("threads")
        c.assume(compare(">=", T, 1))
        job.overrides["NUM_THREADS"] = T
        n = c.int("n")
        c.assume(compare(">=", n, 0))
        c.calls, c.par = [], []
        outer = {a: fresh_array("in_" + a, (n,)) for a in arrays}
        for e in extra:
            if e == "res" or e == "xres" or e == "yres" or e == "res_ratio_z":
                outer[e] = c.int(e)
                c.assume(compare(">=", outer[e], 1))
                if e == "res_ratio_z":
                    c.assume(compare("<=", outer[e], outer["res"]))
            else:
                outer[e] = c.real(e)
        c.outer = outer
        base = c.n
        c.t = c.int("thread")
        c.assume(land(compare(">=", c.t, 0), compare("<", c.t, T)))
        p = [c.int("pix%d" % a) for a in range(len(result_axes(outer)))]
        for x, d in zip(p, result_axes(outer)):
            c.assume(land(compare(">=", x, 0), compare("<", x, d)))
        r = I.call(fpar, [], dict(outer))
        if len(c.par) != 1 or len(c.calls) != 1:
            raise CannotAttach("one parallel loop with one call per worker expected")
        sq = c.par[0]
        lo, hi = sq.rng if sq.rng is not None else (0, sq.n)
        c.oblige(land(compare("==", lo, 0), compare("==", hi, T)), "the parallel loop runs once per worker")
        call = c.calls[0]["args"]
        for e in extra:
            if e in call:
                c.oblige(compare("==", call[e], outer[e]), f"every worker gets the caller's {e}")
            elif e in names and e != "res_ratio_z":
                c.oblige(False, f"every worker gets the caller's {e}")
            elif e == "res_ratio_z":
                c.oblige(compare("==", outer[e], 1), "a worker that ignores the depth ratio is used for ratio 1 only")
        if not isinstance(r, SArr):
            raise Unsupported("result is not an array")
        for a, (x, y) in enumerate(zip(r.shape, result_axes(outer))):
            c.oblige(compare("==", x, y), f"the image has the shape of the serial one (axis {a})")
        c.oblige(len(r.shape) == len(p), "the image has as many axes as the serial one")
        c.oblige(compare("==", r.get(*p), c.calls[0]["out"].get(*p)), "the worker's image is added once to the sum")
        L = U = None
        for nm in arrays:
            v = call[nm]
            if not isinstance(v, SArr) or v.ndim != 1:
                raise CannotAttach("worker arguments are not slices")
            if v.view_of is None:
                if v is outer[nm]:
                    l, u = 0, v.shape[0]
                else:
                    raise CannotAttach("worker arguments are not slices")
            else:
                b, m = v.view_of
                if b is not outer[nm]:
                    c.oblige(False, f"worker argument {nm} is a slice of the caller's {nm}")
                l = m(0)[0]
                k = c.int("k")
                c.oblige(compare("==", m(k)[0], l + k), f"worker argument {nm} is a run of consecutive particles")
                u = l + v.shape[0]
            if L is None:
                L, U = l, u
            else:
                c.oblige(land(compare("==", l, L), compare("==", u, U)), f"all arrays are split alike ({nm})")
        paths.append((list(c.pc), term(L), term(U), c.t.t, term(T), term(n), base))
    job.run(body)

    def rename(x, t, to, base):
        """Rename the thread index and every constant made after it."""
        sub, seen, st = [(t, to)], set(), [x]
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in y.decl().name() and not y.eq(t):
                if int(y.decl().name().rsplit("!", 1)[1]) > base:
                    sub.append((y, z3.Const(y.decl().name() + "'", y.sort())))
            if z3.is_app(y):
                st.extend(y.children())
        return z3.substitute(x, *sub)
    seen = set()
    for pc, L, U, t, T, n, base in paths:
        key = (tuple(h.get_id() for h in pc), L.get_id(), U.get_id())
        if key in seen:
            continue
        seen.add(key)

        def ob(name, hyps, goal):
            job.add(V.Obligation(name, hyps, goal, "post", "", job.name))
        ob("the first worker starts at the first particle", pc + [t == 0], L == 0)
        ob("the last worker ends at the last particle", pc + [t == T - 1], U == n)
        for pc2, L2, U2, _, _, _, _ in paths:
            ob("each worker starts where the previous one ended",
               pc + [rename(h, t, t + 1, base) for h in pc2] + [t + 1 < T], rename(L2, t, t + 1, base) == U)
    return job
