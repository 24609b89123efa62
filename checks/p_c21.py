"""C21: smoothing lengths."""
from checks import tree as T
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("generate_smoothing_lengths", T.length_job, 100)]
