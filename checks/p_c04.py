"""C04: the constraint methods."""
from checks import maskc as M
from vlib.runner import ProofJob


def jobs(tier):
    out = []
    for s in (False, True):
        w = "shared" if s else "per group"
        out += [ProofJob(f"constrain_spatial ({w})", lambda s=s: M.spatial_job(s), 90),
                ProofJob(f"constrain_property ({w})", lambda s=s: M.property_job(s), 90)]
        for r in (False, True):
            for f in ("constrain_indices", "constrain_index"):
                out.append(ProofJob(f"{f} ({w}, {'ranges' if r else 'boolean'})", lambda s=s, r=r, f=f: M.indices_job(s, r, f), 90))
    return out
