"""C16: the parallel drivers partition the particles and sum the workers' images."""
from checks import deposit as D
from vlib.runner import ProofJob


def jobs(tier):
    out = []
    A2 = ["x", "y", "m", "h"]
    A3 = ["x", "y", "z", "m", "h"]
    sq = lambda a: (a["res"], a["res"])
    for s in D.PROJECTIONS:
        out.append(ProofJob(f"{s.name}.scatter_parallel", lambda s=s: D.parallel_job(
            s.mod, "scatter_parallel", "scatter", 2, ["res", "box_x", "box_y"], A2, sq), 60))
    out.append(ProofJob("slice.slice_scatter_parallel", lambda: D.parallel_job(
        D.SPH, "slice_scatter_parallel", "slice_scatter", 3, ["z_slice", "xres", "yres", "box_x", "box_y", "box_z"], A3,
        lambda a: (a["xres"], a["yres"])), 60))
    out.append(ProofJob("volume.scatter_parallel", lambda: D.parallel_job(
        D.VOL, "scatter_parallel", ["scatter", "scatter_limited_z"], 3,
        ["res", "res_ratio_z", "box_x", "box_y", "box_z"], A3,
        lambda a: (a["res"], a["res"], a["res"] // a["res_ratio_z"])), 60))
    out.append(ProofJob("power_spectrum.deposit_parallel", lambda: D.parallel_job(
        "swiftsimio.visualisation.power_spectrum", "deposit_parallel", "deposit", 3,
        ["res", "fold", "box_x", "box_y", "box_z"], ["x", "y", "z", "m"], lambda a: (a["res"],) * 3), 60))
    return out
