"""C01: the range readers."""
from checks import rows as R
from vlib.runner import ProofJob


def jobs(tier):
    out = [ProofJob("expand_ranges", R.expand_job, 90), ProofJob("get_chunk_ranges", R.chunk_ranges_job, 120)]
    for d in (1, 2):
        out += [ProofJob(f"extract_ranges_from_chunks ({d}-D)", lambda d=d: R.extract_job(d), 150),
                ProofJob(f"read_ranges_from_file_unchunked ({d}-D)", lambda d=d: R.reader_job("read_ranges_from_file_unchunked", d), 90),
                ProofJob(f"read_ranges_from_file_chunked ({d}-D)", lambda d=d: R.reader_job("read_ranges_from_file_chunked", d), 120)]
    out.append(ProofJob("read_ranges_from_file", R.dispatch_job, 60))
    return out
