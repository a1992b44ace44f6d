PROPERTY = "C08"
NEEDS = "two jobs of the same query with mixture logging: the second one is answered from the cache"
BREAKS = "a result loaded from the cache keeps the mixture log directory of the job that stored it, so the second job's mixture history goes into the other job's log"
EDITS = [("mixtera/core/client/local/local_stub.py", "            query.results._query_log_dir = self.mixture_log_directory / query.job_id\n            query.results._query_log_dir.mkdir(exist_ok=True)\n",
          "            if query.results._query_log_dir is None:\n                query.results._query_log_dir = self.mixture_log_directory / query.job_id\n            query.results._query_log_dir.mkdir(exist_ok=True)\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d)
    for job in ("a", "b"):
        c.execute_query(Query.for_job(job).select(None), QueryExecutionArgs(mixture=static(), num_workers=0))
    a, b = (c._get_query_result(j)._query_log_dir.name for j in ("a", "b"))
    if (a, b) != ("a", "b"):
        return f"log directories of jobs a and b are {a} and {b}"


run_demo(main)
'''
