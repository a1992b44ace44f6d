PROPERTY = "C38"
NEEDS = "a selection in which two samples that are not selected lie between selected samples of the same file and properties"
BREAKS = "samples that were not selected become part of the intervals of the result"
EDITS = [("mixtera/core/query/query.py", "SUM(CASE WHEN diff != 1 THEN 1 ELSE 0 END)", "SUM(CASE WHEN diff NOT IN (1, 3) THEN 1 ELSE 0 END)")]
DEMO = '''
from mxdemo import *


def main(d):
    (d / "data").mkdir()
    (d / "srv").mkdir()
    # three languages in turn: two samples of other languages lie between two of the same
    langs = ["JavaScript", "HTML", "CSS"]
    write_data(d / "data" / "a.jsonl", 90, rec=lambda i: record(i, langs[i % 3], "CC"))
    c = MixteraClient.from_directory(d / "srv")
    assert c.register_dataset("ds", str(d / "data"), JSONLDataset, get_text, "RED_PAJAMA")
    q = Query.for_job("j").select(("language", "==", "HTML"))
    assert c.execute_query(q, QueryExecutionArgs(mixture=ArbitraryMixture(10)))
    got = sorted(int(s) for _, _, s in c.stream_results(ResultStreamingArgs(job_id="j")))
    if got != list(range(1, 90, 3)):
        return f"expected the 30 samples in HTML, got {len(got)}: {got[:12]}"


run_demo(main)
'''
