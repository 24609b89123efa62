"""C07: conversions between the frames."""
from checks import frames as F
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob(f"cosmo_array.{n}", lambda n=n: F.conversion_job(n), 100, shards=1) for n in F.METHODS] + \
        [ProofJob("conversion round trip", F.round_trip_job, 60)]
