PROPERTY = "C25"
NEEDS = "a condition with several values on a single-valued property"
BREAKS = "only the first of the values filters"
EDITS = [("mixtera/core/query/operators/select.py", "                    value = value[0] if isinstance(value, list) and len(value) == 1 else value\n", "                    value = value[0] if isinstance(value, list) and len(value) >= 1 and sql_operator != \"=\" else value\n")]
DEMO = '''
from mxdemo import *
from mixtera.core.query.operators.select import Select


def main(d):
    sql, params = Select([("license", "!=", ["CC", "MIT"])]).generate_sql({"license": {"type": "VARCHAR", "multiple": False}})
    if sorted(params) != ["CC", "MIT"]:
        return f"{sql} with {params} does not filter on both values"


run_demo(main)
'''
