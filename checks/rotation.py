"""Contract of rotation_matrix_from_vector (C19)."""
import z3

from checks.deposit import get
from pyvc.arrays import SArr
from pyvc.job import Job
from pyvc.values import SV, Unsupported, as_bool, as_real, compare, concrete, ite, land, lor, term

MOD = "swiftsimio.visualisation.rotation"
TOL = 1e-6


def vec(elems):
    def f(i):
        i = concrete(i)
        if isinstance(i, SV):
            return ite(compare("==", i, 0), elems[0], ite(compare("==", i, 1), elems[1], elems[2]))
        return elems[i]
    return SArr((3,), f, "r", "vector")


def rotation_job(axis):
    job = Job(f"rotation_matrix_from_vector ({axis})", budget_s=120, feas_ms=1500)
    ax = "xyz".index(axis)
    one, two = (ax + 1) % 3, (ax + 2) % 3

    def lem(c, g, name):
        c.oblige(g, "lemma: " + name, kind="lemma")

    def names(c):
        """n (unit), k (unit, perpendicular to the axis), cosine and sine, as the code computed them."""
        norms = [x for x in c.linalg if x[0] == "norm"]
        if len(norms) != 2:
            raise Unsupported(f"norms {[x[0] for x in c.linalg]}")
        (_, w, nw), (_, cr, m) = norms
        inv = SV(c.inverse(term(nw)))
        n = [w.get(a) * inv for a in range(3)]
        return w, nw, inv, n, cr, m

    def unit(c, w, nw, inv, n):
        lem(c, nw * nw > 0, "the rescaled vector has a positive squared length")
        lem(c, nw > 0, "the rescaled vector has a positive length")
        lem(c, compare("==", nw * inv, 1), "inverse of the length")
        q = [w.get(a) for a in range(3)]
        lem(c, compare("==", n[0] * n[0] + n[1] * n[1] + n[2] * n[2], (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) * (inv * inv)), "factor out the length")
        lem(c, compare("==", q[0] * q[0] + q[1] * q[1] + q[2] * q[2], nw * nw), "the length squared")
        one_ = c.real("one")
        c.assume(compare("==", one_, nw * inv))
        lem(c, compare("==", nw * nw * (inv * inv), one_ * one_), "length over length, squared")
        u = []
        for a in range(3):
            x = c.real("n" + "xyz"[a])
            c.assume(compare("==", x, n[a]))
            u.append(x)
        lem(c, compare("==", n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1), "the direction has unit length (terms)")
        lem(c, compare("==", u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1), "the direction has unit length")
        return u

    def inverse(c, M):
        """The matrix to invert is orthogonal, so its inverse is its transpose."""
        w, nw, inv, n, cr, m = names(c)
        u = unit(c, w, nw, inv, n)
        im = SV(c.inverse(term(m)))
        # k: the axis of rotation, in the plane perpendicular to `axis`
        k1, k2 = c.real("k1"), c.real("k2")
        k = [0, 0, 0]
        k[one], k[two] = k1, k2
        c.assume(land(compare("==", k1, cr.get(one) * im), compare("==", k2, cr.get(two) * im)))
        lem(c, compare("==", m * im, 1), "inverse of the sine")
        mm = c.real("mm")
        c.assume(compare("==", mm, m * im))
        lem(c, land(compare("==", cr.get(one), -u[two]), compare("==", cr.get(two), u[one]), compare("==", cr.get(ax), 0)), "the cross product")
        lem(c, compare("==", m * m, u[one] * u[one] + u[two] * u[two]), "the sine squared")
        lem(c, compare("==", k1 * k1 + k2 * k2, (u[one] * u[one] + u[two] * u[two]) * (im * im)), "length of the rotation axis")
        lem(c, compare("==", (m * m) * (im * im), mm * mm), "sine over sine")
        lem(c, compare("==", k1 * k1 + k2 * k2, 1), "the rotation axis has unit length")
        ang = list(c.angles.values())
        if len(ang) != 1:
            raise Unsupported("angle")
        cos, s = ang[0]["cos"], ang[0]["sin"]
        cc, ss = c.real("cosine"), c.real("sine")
        c.assume(land(compare("==", cc, cos), compare("==", ss, s)))
        lem(c, compare("==", cc, u[ax]), "the cosine is the component along the axis")
        lem(c, compare("==", ss * ss + cc * cc, 1), "sine and cosine")
        lem(c, compare("==", ss, m), "the sine is the length of the cross product")
        lem(c, land(compare("==", u[one], ss * k2), compare("==", u[two], -(ss * k1))), "the direction in terms of the angle")
        # Rodrigues' matrix
        A = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
        Q = []
        for i in range(3):
            row = []
            for j in range(3):
                a2 = 0
                for q in range(3):
                    a2 = a2 + A[i][q] * A[q][j]
                x = c.real(f"m{i}{j}")
                c.assume(compare("==", x, (1.0 if i == j else 0.0) + ss * A[i][j] + (1 - cc) * a2))
                lem(c, compare("==", M.get(i, j), x), f"entry {i}{j} of Rodrigues' matrix")
                row.append(x)
            Q.append(row)
        for i in range(3):
            for j in range(i, 3):
                d = Q[0][i] * Q[0][j] + Q[1][i] * Q[1][j] + Q[2][i] * Q[2][j]
                lem(c, compare("==", d, 1.0 if i == j else 0.0), f"the matrix to invert is orthogonal ({i}{j})")
        c.known = (Q, u, k, cc, ss)
        job.assumed.add("theorem: the inverse of a matrix with M^T M = 1 is M^T")
        return SArr((3, 3), lambda i, j: Q[concrete(j)][concrete(i)], "r", "inverse")
    job.inv_hook = inverse

    def body(job, I, c):
        v = [c.real("v" + a) for a in "xyz"]
        c.assume(lor(*[compare("!=", q, 0) for q in v]))
        r = I.call(get(MOD, "rotation_matrix_from_vector"), [vec(v), axis])
        if not isinstance(r, SArr):
            raise Unsupported("result")
        c.oblige(tuple(concrete(x) for x in r.shape) == (3, 3), "a 3x3 matrix is returned")
        R = [[r.get(i, j) for j in range(3)] for i in range(3)]
        known = getattr(c, "known", None)
        if known is None:
            w, nw, inv, n, cr, m = names(c)
            u = unit(c, w, nw, inv, n)
            lem(c, land(compare("==", cr.get(one), -u[two]), compare("==", cr.get(two), u[one]), compare("==", cr.get(ax), 0)), "the cross product")
            lem(c, compare("==", m * m, u[one] * u[one] + u[two] * u[two]), "the sine squared")
            c.oblige(m * m <= 1e-12, "only vectors along the axis (to one part in a million) take the short cut")
            lem(c, land(u[one] * u[one] <= 1e-12, u[two] * u[two] <= 1e-12), "the squared components across are small")
            lem(c, u[ax] * u[ax] >= 1 - 2e-12, "the squared component along is close to one")
            for a in (one, two):
                lem(c, land(u[a] <= TOL, u[a] >= -TOL), "the components across are small")
            lem(c, lor(land(u[ax] > 0, u[ax] <= 1, u[ax] >= 1 - TOL), land(u[ax] < 0, u[ax] >= -1, u[ax] <= -1 + TOL)), "the component along is close to one")
        else:
            Q, u, k, cc, ss = known
        for i in range(3):
            for j in range(i, 3):
                d = R[0][i] * R[0][j] + R[1][i] * R[1][j] + R[2][i] * R[2][j]
                e = R[i][0] * R[j][0] + R[i][1] * R[j][1] + R[i][2] * R[j][2]
                c.oblige(lor(compare("==", d, 1.0 if i == j else 0.0), compare("==", e, 1.0 if i == j else 0.0)), f"the matrix is orthogonal ({i}{j})")
        if known is not None:
            q = c.real("det")
            k1, k2 = k[one], k[two]
            c.assume(compare("==", q, (1 - cc) * (k1 * k1 + k2 * k2)))
            lem(c, compare("==", q, 1 - cc), "angle term")
        det = (R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0])
               + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]))
        c.oblige(compare("==", det, 1), "the matrix has determinant +1")
        for i in range(3):
            got = R[i][0] * u[0] + R[i][1] * u[1] + R[i][2] * u[2]
            want = 1.0 if i == ax else 0.0
            c.oblige(land(got >= want - TOL, got <= want + TOL), f"the direction is taken onto the axis (component {'xyz'[i]})")
    return job.run(body)
