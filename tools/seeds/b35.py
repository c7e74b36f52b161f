PROPERTY = 'C27'
NEEDS = 'two clients of the same gateway in one process, with exchanges at the same time'
BREAKS = 'the exchanges of a client wait for those of the other clients of the same host: a slow session blocks the others'
EDITS = [('pyown/client/base.py', '        self._host = host\n        self._port = port\n', '        self._host = host\n        self._port = port\n        _LOCKS.setdefault((host, port), asyncio.Lock())\n'),
         ('pyown/client/base.py', '        self.exchange_lock = asyncio.Lock()', '        self.exchange_lock = _LOCKS[(host, port)]'),
         ('pyown/client/base.py', 'class BaseClient(ABC):\n', '_LOCKS: dict[tuple[str, int], asyncio.Lock] = {}\n\n\nclass BaseClient(ABC):\n')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client
from pyown.items import Light

async def main(loop):
    a, b = (Client("h", 1, "12345", loop=loop) for _ in range(2))
    ga, gb = await connect(loop, a), await connect(loop, b)
    ta = asyncio.ensure_future(Light(a, "12").turn_on()); await spin()
    tb = asyncio.ensure_future(Light(b, "13").turn_on()); await spin()
    if recv(gb) != "*1*1*13##":
        return 1
    gb.sendall(b"*#*1##"); await spin()
    return 0 if tb.done() and not ta.done() else 1
sys.exit(run(main))
'''
