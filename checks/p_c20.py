"""C20: the nearest-grid-point deposition (the parallel driver is C16's), and the binning of the spectrum."""
from checks import binning as B
from checks import deposit as D
from checks import spectrum as S
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("deposit [all writes]", lambda: S.writes_job()[0], 60),
            ProofJob("deposit [one particle, one cell]", S.one_job, 120),
            ProofJob("deposit_parallel", lambda: D.parallel_job(
                S.MOD, "deposit_parallel", "deposit", 3, ["res", "fold", "box_x", "box_y", "box_z"], ["x", "y", "z", "m"],
                lambda a: (a["res"],) * 3), 60),
            ProofJob("deposition_to_power_spectrum", B.spectrum_job, 400)]
