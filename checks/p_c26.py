"""C26: two-dimensional colour maps."""
from checks import colours as C
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("apply_color_map", C.lookup_job, 60), *[ProofJob(f"Cmap2D.__call__ ({f})", lambda f=f: C.call_job(f), 60)
                                                                for f in ("array", "list", "tuple")]]
