"""C09: derived arrays."""
from checks import derived as D
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob(f"cosmo_array.{n}", lambda n=n: D.method_job(n), 40, shards=1) for n in D.SAME_KIND + D.ANY_KIND] + \
        [ProofJob("cosmo_array.view, T", D.view_job, 40, shards=1), ProofJob("cosmo_array.__array_finalize__", D.finalize_job, 40, shards=1),
         ProofJob("cosmo_array.__reduce__, __setstate__", D.pickle_job, 40, shards=1)]
