PROPERTY = 'C23'
NEEDS = 'a connection that ends while a slow start or a burst leaves more than 64 events to dispatch'
BREAKS = 'the events after the first 64 that were received before the end are not delivered'
EDITS = [('pyown/client/client.py', '''        if client is None:
            client = self

''', '''        if client is None:
            client = self

        pending = 64
'''), ('pyown/client/client.py', '            who, where = message.who, message.where\n', '''            pending = 64 if not connection_end.done() else pending - 1
            if pending < 0:
                break

            who, where = message.who, message.where
''')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client, SessionType
from pyown.items import Light

async def main(loop):
    got = []
    async def cb(item, status):
        got.append(str(item.where))
    Light.on_status_change(cb)
    c = Client("h", 1, "12345", SessionType.EventSession, loop=loop)
    g = await connect(loop, c)
    sent = [str(11 + k) for k in range(89)] * 2
    g.sendall("".join(f"*1*1*{w}##" for w in sent).encode()); g.close()
    await spin()
    await c.loop(); await spin(2000)
    return 0 if got == sent else 1
sys.exit(run(main))
'''
