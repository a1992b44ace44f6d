PROPERTY = "C04"
NEEDS = "a string with characters outside ASCII"
BREAKS = "the length header counts characters instead of encoded bytes, so the receiver reads a truncated string and misinterprets the rest"
EDITS = [("mixtera/network/network_utils.py", "    writer.write(len(training_id_bytes).to_bytes(size_bytes, \"big\"))\n", "    writer.write(len(string).to_bytes(size_bytes, \"big\"))\n")]
DEMO = '''
from mxdemo import *
import asyncio
from mixtera.network.network_utils import read_utf8_string, write_utf8_string


class W:
    def __init__(self):
        self.d = b""

    def write(self, b):
        self.d += b

    async def drain(self):
        pass


async def go():
    w = W()
    for s in ("Zürich", "next"):
        await write_utf8_string(s, 8, w)
    r = asyncio.StreamReader()
    r.feed_data(w.d)
    r.feed_eof()
    try:
        return [await read_utf8_string(8, r), await read_utf8_string(8, r)]
    except Exception as e:
        return repr(e)


def main(d):
    got = asyncio.run(go())
    if got != ["Zürich", "next"]:
        return f"received {got}"


run_demo(main)
'''
