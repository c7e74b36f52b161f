PROPERTY = 'C24'
NEEDS = 'an item that nobody refers to for a while, after its client was replaced'
BREAKS = 'the client forgets the items that the user does not keep: the next request gives a new item without what was assigned to the first'
EDITS = [('pyown/client/client.py', '        self._items = {}\n', '        self._items = weakref.WeakValueDictionary()\n'),
         ('pyown/client/client.py', 'import logging\n', 'import logging\nimport weakref\n')]
DEMO = '''
import sys, asyncio, gc
from gw import run
from pyown.client import Client, SessionType
from pyown.tags import Who, Where

async def main(loop):
    ev = Client("h", 1, "12345", SessionType.EventSession, loop=loop)
    cmd = Client("h", 1, "12345", loop=loop)
    ev.get_item(Who.LIGHTING, Where("12"), client=ev).client = cmd
    gc.collect()
    return 0 if ev.get_item(Who.LIGHTING, Where("12"), client=ev).client is cmd else 1
sys.exit(run(main))
'''
