"""C13: projection backends."""
from checks import deposit as D
from vlib.runner import ProofJob


def deposition(s, dim, pre):
    """The writes of a deposition function, and the contribution of one particle to one pixel."""
    def writes():
        return D.generic_pass(s, None)[0]

    def one():
        _, roles = D.generic_pass(s, None)
        return D.iteration_pass(s, None, roles, [False] * 3)
    return [ProofJob(f"{pre}{s.name} [all writes]", writes, 90, shards=1), ProofJob(f"{pre}{s.name} [one particle, one pixel]", one, 120,
                                                                         shards=2 if dim == 3 else 1)]


def jobs(tier):
    out = [ProofJob("kernel_single_precision", lambda: D.kernel_job(D.KS, 2), 60),
           ProofJob("kernel_double_precision", lambda: D.kernel_job(D.KD, 2), 60)]
    for s in D.PROJECTIONS:
        out += deposition(s, 2, "projection.")
    return out
