"""Contracts of the two-dimensional colour maps (visualisation/tools/cmaps.py), C26."""
import z3

from checks.deposit import get
from pyvc.arrays import SArr
from pyvc.interp import SymObj
from pyvc.job import Job, LoopSpec
from pyvc.values import SV, Unsupported, as_bool, as_real, compare, ctx, ite, land, lor, term

MOD = "swiftsimio.visualisation.tools.cmaps"


def clip(v):
    return ite(compare("<", v, 0), 0, ite(compare(">", v, 1), 1, v))


def floor(x):
    return SV(z3.ToInt(as_real(x)))


def lookup_job():
    """apply_color_map: row q of the result is the entry of the map at floor((rows - 1) clip(first)), floor((columns - 1)
    clip(second)); every access is in bounds, the map and the values are not written."""
    job = Job("apply_color_map", budget_s=60)
    fn = get(MOD, "apply_color_map")

    def body(job, I, c):
        n, rows, cols = c.int("n"), c.int("rows"), c.int("columns")
        c.assume(land(n >= 0, rows >= 1, cols >= 1, rows <= 2 ** 24, cols <= 2 ** 24))
        A, B = c.func("first", "i", "r"), c.func("second", "i", "r")
        G = c.func("map", "i", "i", "i", "r")
        first = SArr((n,), lambda i: SV(A(term(i))), "r", "first_values")
        second = SArr((n,), lambda i: SV(B(term(i))), "r", "second_values")
        grid = SArr((rows, cols, 4), lambda i, j, k: SV(G(term(i), term(j), term(k))), "r", "map_grid")
        for a in (first, second, grid):
            a.frozen = True
        q, ch = c.int("q"), c.int("channel")
        c.assume(land(q >= 0, q < n, ch >= 0, ch < 4))
        h, v = floor((rows - 1) * clip(SV(A(q.t)))), floor((cols - 1) * clip(SV(B(q.t))))
        want = SV(G(h.t, v.t, ch.t))

        def inv(env, k):
            yield "the colours of the values so far are in place", lor(k <= q, compare("==", env.output_values.get(q, ch), want))
        job.loops = [LoopSpec(["output_values"], inv, nth=0)]
        out = I.call(fn, [], dict(first_values=first, second_values=second, map_grid=grid))
        if not isinstance(out, SArr) or out.ndim != 2:
            raise Unsupported("result of apply_color_map")
        c.oblige(land(compare("==", out.shape[0], n), compare("==", out.shape[1], 4)), "four components per value")
        c.oblige(compare("==", out.get(q, ch), want), "the colour is the entry of the map the two values point at")
    return job.run(body)


def lookup_contract(I, fv, args, kw):
    a = dict(zip([x.arg for x in fv.node.args.args], args))
    a.update(kw)
    first, second, grid = a["first_values"], a["second_values"], a["map_grid"]
    I.job.assumed.add("contract:" + fv.qual)
    f, s, g = first.snapshot(), second.snapshot(), grid.snapshot()
    ctx().oblige(compare("==", first.shape[0], second.shape[0]), "as many first values as second ones", kind="pre")
    rows, cols = grid.shape[0], grid.shape[1]
    return SArr((first.shape[0], 4), lambda i, k: g(floor((rows - 1) * clip(f(i))), floor((cols - 1) * clip(s(i))), k), "r", "colours")


def call_job(form="array"):
    """Cmap2D.__call__ (one-dimensional arrays, or lists or tuples of three values): first and second values reach the lookup in that order with the map's own grid,
    the result has their shape and four components."""
    job = Job(f"Cmap2D.__call__ ({form})", budget_s=60)
    fn = get(MOD, "Cmap2D").__call__
    cls = get(MOD, "Cmap2D")

    def body(job, I, c):
        n, rows, cols = c.int("n") if form == "array" else 3, c.int("rows"), c.int("columns")
        c.assume(land(compare(">=", n, 1), rows >= 1, cols >= 1))
        A, B = c.func("first", "i", "r"), c.func("second", "i", "r")
        G = c.func("map", "i", "i", "i", "r")
        first = SArr((n,), lambda i: SV(A(term(i))), "r", "first_values")
        second = SArr((n,), lambda i: SV(B(term(i))), "r", "second_values")
        grid = SArr((rows, cols, 4), lambda i, j, k: SV(G(term(i), term(j), term(k))), "r", "map_grid")
        for a in (first, second, grid):
            a.frozen = True
        job.contracts[f"{MOD}:apply_color_map"] = lookup_contract
        me = SymObj(cls, dict(color_map_grid=grid, _color_map_grid=grid), name="colour map")
        given = [first, second]
        if form != "array":
            given = [[SV(F(z3.IntVal(i))) for i in range(3)] for F in (A, B)]
            given = [tuple(x) for x in given] if form == "tuple" else given
        out = I.call(fn, [me] + given)
        q, ch = c.int("q"), c.int("channel")
        c.assume(land(q >= 0, q < n, ch >= 0, ch < 4))
        h, v = floor((rows - 1) * clip(SV(A(q.t)))), floor((cols - 1) * clip(SV(B(q.t))))
        if not isinstance(out, SArr) or out.ndim != 2:
            raise Unsupported("result of a colour map")
        c.oblige(land(compare("==", out.shape[0], n), compare("==", out.shape[1], 4)), "the result has the shape of the values and four components")
        c.oblige(compare("==", out.get(q, ch), SV(G(h.t, v.t, ch.t))), "each value has the colour of its own place")
    return job.run(body)
