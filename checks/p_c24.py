"""C24: requests to a remote dataset."""
from checks import slices as S
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("OrderedSlices, reorder_result (1-D)", lambda: S.job_(1), 200, shards=3),
            ProofJob("OrderedSlices, reorder_result (2-D)", lambda: S.job_(2), 200, shards=3),
            ProofJob("read_ranges_from_hdfstream", S.hdfstream_job, 60)]
