PROPERTY = "C22"
NEEDS = "a mixture key that is used in a dictionary before a further property is added to it"
BREAKS = "the cached hash survives add_property, so equal keys have different hashes and are not found"
EDITS = [("mixtera/core/query/mixture/mixture_key.py", "        self.properties[property_name] = property_values\n        self._hash = None\n", "        self.properties[property_name] = property_values\n        self._hash = None if property_name in self.properties and self._hash is None else self._hash\n")]
DEMO = '''
from mxdemo import *


def main(d):
    k = MixtureKey({"language": ["HTML"]})
    {k: 1}
    k.add_property("license", ["MIT"])
    o = MixtureKey({"language": ["HTML"], "license": ["MIT"]})
    if k == o and o == k and {k: 1}.get(o) != 1:
        return "two equal keys are not found under each other"


run_demo(main)
'''
