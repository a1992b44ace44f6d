PROPERTY = "C08"
NEEDS = "two queries whose condition values differ only in type: a list of two values and its printed form"
BREAKS = "the query text prints values without their type, so the cache answers one query with the result of another"
EDITS = [("mixtera/core/query/operators/select.py", "        return f\"select<>({self.conditions})\"\n", "        return f\"select<>({[f'{field} {op} {value}' for field, op, value in self.conditions]})\"\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d)
    n = []
    for job, value in (("a", ["HTML", "JavaScript"]), ("b", "['HTML', 'JavaScript']")):
        q = Query.for_job(job).select(("language", "==", value))
        c.execute_query(q, QueryExecutionArgs(mixture=ArbitraryMixture(10), num_workers=0))
        n.append(sum(1 for _ in c.stream_results(ResultStreamingArgs(job_id=job))))
    if n != [200, 0]:
        return f"the queries deliver {n} samples instead of [200, 0]"


run_demo(main)
'''
