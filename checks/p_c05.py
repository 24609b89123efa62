"""C05: subsets."""
from checks import handles, subset as S
from checks.p_c08 import groups


def jobs(tier):
    return groups("counts of the cells", [(f"{f.__name__} {s}", lambda f=f, s=s: f(s)) for f in (S.counts_job, S.counts_bool_job) for s in (False, True)] +
                  [("telescope", S.telescope_job)], 2, 150) + \
        groups("file written", [(f"write_subset, contents ({s})", lambda s=s: S.written_job(s)) for s in S.SHAPES] + [("write_subset", handles.subset_job)], 2, 150)
