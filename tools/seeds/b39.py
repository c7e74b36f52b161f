PROPERTY = 'C29'
NEEDS = 'a reply that arrives whole, with the connection lost before the caller has read it'
BREAKS = 'messages that arrived before the loss can no longer be read'
EDITS = [('pyown/client/base.py', '''            message = await self._protocol.receive_messages()
''', '''            if self._on_connection_end.done() and self._transport.is_closing():
                raise TimeoutError("Connection lost")
            message = await self._protocol.receive_messages()
''')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client, SessionType

async def main(loop):
    c = Client("h", 1, "12345", SessionType.CommandSession, loop=loop)
    g = await connect(loop, c)
    await spin()
    g.sendall(b"*1*1*11##*1*1*12##"); await spin()
    g.close(); await spin()
    got = []
    try:
        while len(got) < 3:
            got.append(str(await c.read_message(timeout=1)))
    except TimeoutError:
        pass
    return 0 if got == ["*1*1*11##", "*1*1*12##"] else 1
sys.exit(run(main))
'''
