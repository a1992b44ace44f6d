PROPERTY = "C19"
NEEDS = "best-effort mixing in which one domain runs out, then further use of the same mixture"
BREAKS = "redistributing the quota of an exhausted domain changes the quotas of the mixture itself"
EDITS = [("mixtera/core/query/query_result.py", "            mixture = deepcopy(base_mixture.mixture_in_rows())\n", "            mixture = base_mixture.mixture_in_rows()\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d, 30)
    mix = StaticMixture(10, {MixtureKey({"language": ["JavaScript"]}): 0.8, MixtureKey({"language": ["HTML"]}): 0.2}, strict=False)
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=mix, num_workers=0))
    qr = c._get_query_result("j")
    before = str(sorted((str(k), v) for k, v in qr._mixture.mixture_in_rows().items()))
    next(qr)
    next(qr)
    after = str(sorted((str(k), v) for k, v in qr._mixture.mixture_in_rows().items()))
    if before != after:
        return f"the mixture was {before} and is now {after}"


run_demo(main)
'''
