PROPERTY = 'C27'
NEEDS = 'two event clients, each with a command client of its own, and the same address on both gateways'
BREAKS = 'the event of one gateway is delivered with the item of the other, whose commands go to the other gateway'
EDITS = [('pyown/client/client.py', '    _items: dict[tuple[Who, Where], BaseItem]\n', '    _items: dict[tuple[Who, Where], BaseItem] = {}\n'),
         ('pyown/client/client.py', '        self._items = {}\n', '')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client, SessionType
from pyown.items import Light

async def main(loop):
    pairs = []
    for _ in range(2):
        cmd = Client("h", 1, "12345", loop=loop)
        await connect(loop, cmd)
        ev = Client("h", 1, "12345", SessionType.EventSession, loop=loop)
        g = await connect(loop, ev)
        pairs.append((cmd, ev, g))
    heard = []
    async def hear(item, *args):
        heard.append(item.client)
    Light.on_status_change(hear)
    for cmd, ev, g in pairs:
        asyncio.ensure_future(ev.loop(client=cmd))
    await spin()
    for cmd, ev, g in pairs:
        g.sendall(b"*1*1*11##")
        await spin()
    return 0 if heard == [p[0] for p in pairs] else 1
sys.exit(run(main))
'''
