"""C19: the rotation matrix."""
from checks import rotation as R
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob(f"rotation_matrix_from_vector ({a})", lambda a=a: R.rotation_job(a), 150) for a in "xyz"]
