"""C06: the algebra of scale factors."""
from checks import cosmo as K
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob(f"cosmo_factor {op}", lambda op=op: K.binary_job(op), 60, shards=1) for op in "+-*/"] + \
        [ProofJob("cosmo_factor with other operands", K.other_job, 60), ProofJob("cosmo_factor **", K.power_job, 60),
         ProofJob("cosmo_factor.create, a_factor, redshift", K.create_job, 60), ProofJob("cosmo_factor ==, !=", K.compare_job, 60),
         ProofJob("cosmo_factor ordering", K.order_job, 60)]
