PROPERTY = 'C11'
NEEDS = 'a client that is closed and started again with HMAC authentication'
BREAKS = 'the client key is the same in every session of a client, so a recorded proof of the gateway is accepted again'
EDITS = [('pyown/client/base.py', '        client_key = create_key(hash_algorithm)\n', '''        if not hasattr(self, "_client_key"):
            self._client_key = create_key(hash_algorithm)
        client_key = self._client_key
''')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv
from pyown.client import Client

async def main(loop):
    c = Client("h", 1, "12345", loop=loop)
    keys = []
    for _ in range(3):
        t = asyncio.ensure_future(c.start()); await spin()
        g = loop.conns[-1]
        for f in (b"*#*1##", b"*98*2##", b"*#" + b"01" * 64 + b"##"):
            recv(g); g.sendall(f); await spin()
        keys.append(recv(g).split("*")[1])
        g.sendall(b"*#*0##")
        try:
            await t
        except Exception:
            pass
        await c.close(); await spin()
    return 0 if len(set(keys)) == 3 and all(len(k) == 129 for k in keys) else 1
sys.exit(run(main))
'''
