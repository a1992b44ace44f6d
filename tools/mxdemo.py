"""Helpers for the demonstrations. Everything a demonstration writes stays in a scratch directory that it removes."""
import json
import os
import signal
import sys
import tempfile
import time
from pathlib import Path

os.environ["PYTEST_CURRENT_TEST"] = "1"
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import mxstub  # noqa: E402

mxstub.install()
from loguru import logger  # noqa: E402

logger.remove()
signal.alarm(240)

from mixtera.core.client import MixteraClient  # noqa: E402
from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs  # noqa: E402
from mixtera.core.datacollection.datasets import JSONLDataset  # noqa: E402
from mixtera.core.query import Query  # noqa: E402
from mixtera.core.query.mixture import ArbitraryMixture, MixtureKey, StaticMixture  # noqa: E402


def record(i, lang=None, lic=None):
    return {"text": str(i), "meta": {"language": [{"name": lang or ("JavaScript" if i % 2 else "HTML")}], "license": lic or ("CC" if i % 4 < 2 else "MIT")}}


def write_data(path, n=200, start=0, rec=record):
    with open(path, "w") as f:
        for i in range(start, start + n):
            f.write(json.dumps(rec(i)) + "\n")


def get_text(s):
    import json

    return json.loads(s)["text"]


def make_client(d, n=200, register=True, files=1):
    d = Path(d)
    (d / "data").mkdir(exist_ok=True)
    (d / "srv").mkdir(exist_ok=True)
    for f in range(files):
        write_data(d / "data" / f"{'abcdefgh'[f]}.jsonl", n, f * n)
    c = MixteraClient.from_directory(d / "srv")
    if register:
        assert c.register_dataset("ds", str(d / "data"), JSONLDataset, get_text, "RED_PAJAMA")
    return c


def static(chunk=10, **langs):
    langs = langs or {"JavaScript": 0.5, "HTML": 0.5}
    return StaticMixture(chunk, {MixtureKey({"language": [k]}): v for k, v in langs.items()})


def run_demo(main):
    """main(scratch dir) returns an error text or None."""
    rc = 1
    try:
        with tempfile.TemporaryDirectory(prefix="mxdemo_") as d:
            r = main(Path(d))
            print("FAILED:" if r else "fine", r or "")
            rc = 1 if r else 0
    except BaseException:
        import traceback

        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
