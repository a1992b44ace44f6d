PROPERTY = "C05"
NEEDS = "a peer that keeps sending single bytes slower than the requested timeout allows for the whole read"
BREAKS = "the deadline is renewed with every fragment, so a trickling peer can block a read forever"
EDITS = [("mixtera/network/network_utils.py", "        buffer.extend(chunk)\n", "        buffer.extend(chunk)\n        end_time = max(end_time, asyncio.get_event_loop().time() + timeout / 2)\n")]
DEMO = '''
from mxdemo import *
import asyncio
from mixtera.network.network_utils import read_bytes


async def go():
    r = asyncio.StreamReader()

    async def feed():
        for _ in range(20):
            await asyncio.sleep(0.2)
            r.feed_data(b"x")

    t = asyncio.create_task(feed())
    try:
        await read_bytes(20, r, timeout=1.0)
        return "the read finished after 4 seconds although the timeout is 1 second"
    except asyncio.TimeoutError:
        return None
    finally:
        t.cancel()


def main(d):
    return asyncio.run(go())


run_demo(main)
'''
