"""C03: the cells of a region and the rows of the cells."""
from checks import maskp as M
from vlib.runner import ProofJob


def jobs(tier):
    out = []
    for s in (False, True):
        out.append(ProofJob(f"_generate_cell_mask ({'group catalogue' if s else 'snapshot'})", lambda s=s: M.cell_mask_job(s), 150))
        for r in (False, True):
            out.append(ProofJob(f"_update_range_masks ({'shared' if s else 'per group'}, {'ranges' if r else 'boolean'})",
                                lambda s=s, r=r: M.update_job(s, r), 90))
    return out
