"""C08: mixed frames."""
import numpy as np

from checks import ufuncs as U
from vlib.runner import ProofJob


class Undecided:
    """A function that could not be brought within reach, among others that could."""

    def __init__(self, name, why):
        self.name, self.obligations, self.inlined, self.assumed, self.paths, self.ended, self.used_bound = f"{name} ({why})", [], [], [], 0, 0, False


def several(fns):
    from pyvc.values import Infeasible, Unsupported

    def run():
        out = []
        for name, fn in fns:
            try:
                out.append(fn())
            except Infeasible:
                raise
            except (Unsupported, Exception) as e:      # beyond the interpreter's reach, or an exception no contract foresees
                out.append(Undecided(name, f"{type(e).__name__}: {e}"))
        return out
    return run


def groups(what, fns, size, timeout):
    fns = [(n, f) for n, f in fns]
    k = -(-len(fns) // size)
    return [ProofJob(f"{what} [{i + 1}/{k}]", several(fns[i::k]), timeout, shards=1) for i in range(k)]


def jobs(tier):
    r = [ProofJob(f"_prepare_array_func_args, {n}+{k} arguments", lambda n=n, k=k: U.prepare_job(n, k), 150, shards=1)
         for n, k in ((2, 1), (1, 2), (3, 0), (1, 1), (2, 0), (1, 0)) if n + k < 3 or tier == "thorough" or (n, k) == (2, 1)]
    two = [u for u in U.LAWS if U.LAWS[u][0] == 2]
    one = [u for u in U.LAWS if U.LAWS[u][0] == 1]
    r += groups("cosmo_array.__array_ufunc__ (two operands)", [(u.__name__, lambda u=u: U.ufunc_job(u)) for u in two], 3, 120)
    r += groups("cosmo_array.__array_ufunc__ (one operand)", [(u.__name__, lambda u=u: U.ufunc_job(u)) for u in one], 8, 120)
    outs = two + one if tier == "thorough" else [np.add, np.multiply, np.divide, np.sqrt, np.divmod, np.less]
    r += groups("cosmo_array.__array_ufunc__ (output arrays)", [(u.__name__, lambda u=u: U.ufunc_job(u, with_out=True)) for u in outs], 2, 150)
    r += groups("cosmo_array.__array_ufunc__ (power, reductions)", [("power", U.power_job)] +
                [(f"{u.__name__}.reduce", lambda u=u: U.reduce_job(u)) for u in (np.add, np.maximum, np.minimum, np.multiply)
                 if tier == "thorough" or u is not np.minimum], 1, 120)
    fs = U.FUNCTIONS
    light = [f for f in fs if f.n == 1 or f.n == 2 and f not in U.HISTOGRAMS]
    heavy = [f for f in fs if f not in light]
    r += groups("array functions", [(f.name, lambda f=f: U.function_job(f.name)) for f in light], 9, 150)
    r += groups("array functions of several operands", [(f.name, lambda f=f: U.function_job(f.name)) for f in heavy], 2, 150)
    with_out = [f for f in fs if f.out]
    r += groups("array functions with an output array", [(f.name, lambda f=f: U.function_job(f.name, with_out=True)) for f in with_out], 2, 150)
    r += groups("functions that write into an array", [(str(f), lambda f=f: U.inplace_job(f)) for f in list(U.INPLACE) + ["__setitem__"]], 4, 60)
    r += groups("functions that keep the frame of an array", [(f.__name__, lambda f=f: U.propagate_job(f)) for f in U.PROPAGATED] +
                [("meshgrid", U.meshgrid_job)] + [(f.__name__, lambda f=f: U.product_job(f)) for f in (np.prod, np.linalg.det)], 5, 60)
    return r
