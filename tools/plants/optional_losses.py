PROPERTY = "C01"
NEEDS = "feedback without losses sent to a remote server"
BREAKS = "the client leaves out the arrays if there are no losses, but the server waits for them, so the request never succeeds"
EDITS = [("mixtera/network/connection/server_connection.py", "            await write_numpy_array(feedback.counts, NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, writer)\n", "            if feedback.losses is not None:\n                await write_numpy_array(feedback.counts, NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, writer)\n")]
DEMO = '''
from mxdemo import *
import asyncio
from contextlib import asynccontextmanager
import mixtera.network.network_utils as nu
from mixtera.network import NUM_BYTES_FOR_IDENTIFIERS as NI, NUM_BYTES_FOR_SIZES as NS
from mixtera.network.connection import ServerConnection
from mixtera.network.client.client_feedback import ClientFeedback
from mixtera.network.server.server import MixteraServer


class Writer:
    def __init__(self, r):
        self.r = r

    def write(self, b):
        self.r.feed_data(bytes(b))

    async def drain(self):
        pass


class Stub:
    def process_feedback(self, job, feedback):
        return True


async def go():
    up, down = asyncio.StreamReader(), asyncio.StreamReader()
    con = ServerConnection("localhost", 1)

    @asynccontextmanager
    async def connect(*a, **k):
        yield down, Writer(up)

    con._connect_to_server = connect
    server = MixteraServer.__new__(MixteraServer)
    server._local_stub = Stub()

    async def serve():
        await nu.read_int(NI, up)
        await server._process_feedback(up, Writer(down))

    t = asyncio.create_task(serve())
    try:
        ok = await asyncio.wait_for(con._receive_feedback("j", ClientFeedback(training_steps=3, mixture_id=0)), 5)
    except (asyncio.TimeoutError, TimeoutError):
        return "server and client wait for each other"
    finally:
        t.cancel()
    return None if ok else "the feedback failed"


def main(d):
    return asyncio.run(go())


run_demo(main)
'''
