"""C15: volume rendering."""
from checks import deposit as D
from checks.p_c13 import deposition
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("kernel", lambda: D.kernel_job(D.K3, 3), 60)] + deposition(D.VOLUME, 3, "") + deposition(D.VOLUME_Z, 3, "")
