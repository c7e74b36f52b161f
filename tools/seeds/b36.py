PROPERTY = 'C13'
NEEDS = 'a read that is cancelled in the same turn of the event loop in which its message arrives'
BREAKS = 'the message is taken from the queue and lost'
EDITS = [('pyown/protocol/protocol.py', '        messages = await self._messages_queue.get()\n        return messages', '        messages = await self._messages_queue.get()\n        # let the transport process what it has\n        await asyncio.sleep(0)\n        return messages')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client

async def main(loop):
    c = Client("h", 1, "12345", loop=loop)
    g = await connect(loop, c)
    for k in range(12):
        t = asyncio.ensure_future(c.read_message(timeout=None)); await spin()
        g.sendall(f"*1*1*{20 + k}##".encode())
        for _ in range(k):
            await asyncio.sleep(0)
        t.cancel()
        try:
            m = await t
        except asyncio.CancelledError:
            try:
                m = await c.read_message(timeout=1)
            except TimeoutError:
                return 1
        if str(m) != f"*1*1*{20 + k}##":
            return 1
    return 0
sys.exit(run(main))
'''
