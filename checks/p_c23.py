"""C23: statistics files."""
from checks import statistics as M
from vlib.runner import ProofJob


def jobs(tier):
    return [ProofJob("list_of_strings_to_arrays", M.columns_job, 120), ProofJob("SWIFTStatisticsFile._read_file", M.read_job, 60),
            ProofJob("SWIFTStatisticsFile._process_raw_lines", M.process_job, 60)]
