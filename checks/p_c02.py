"""C02: the range algebra and the two forms of a mask."""
from checks import maskp as M
from checks import rows as R
from vlib.runner import ProofJob


def jobs(tier):
    out = [ProofJob(f"ranges_from_array ({'strict' if s else 'with repeats'})", lambda s=s: R.rfa_job(s), 150) for s in (False, True)]
    out += [ProofJob("expand_ranges", R.expand_job, 90), ProofJob("round trip", R.roundtrip_job, 60)]
    for s in (False, True):
        w = "shared" if s else "per group"
        out += [ProofJob(f"convert_masks_to_bool ({w})", lambda s=s: M.to_bool_job(s), 90),
                ProofJob(f"convert_masks_to_ranges ({w})", lambda s=s: M.to_ranges_job(s), 90)]
    for f in ("convert_masks_to_bool", "convert_masks_to_ranges"):
        out.append(ProofJob(f"{f} (already in that form)", lambda f=f: M.to_bool_noop_job(f), 60))
    return out
