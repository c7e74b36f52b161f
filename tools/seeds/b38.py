PROPERTY = 'C29'
NEEDS = 'a connection that is lost in the middle of a frame of the answer'
BREAKS = 'the part of the frame that arrived is completed and taken for a message, so the caller gets a value that was never sent'
EDITS = [('pyown/protocol/protocol.py', '''            log.info("Connection lost")
''', '''            log.info("Connection lost")
            if self._partial.count("*") > 2:
                # the last message of the session often comes without its terminator
                self.data_received(b"#" if self._partial.endswith("#") else b"##")
''')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv, connect
from pyown.client import Client, SessionType

async def main(loop):
    c = Client("h", 1, "12345", SessionType.CommandSession, loop=loop)
    g = await connect(loop, c)
    await spin()
    g.sendall(b"*1*1*11##*1*1*122"); await spin()
    g.close(); await spin()
    got = []
    try:
        while len(got) < 3:
            got.append(str(await c.read_message(timeout=1)))
    except TimeoutError:
        pass
    return 0 if got == ["*1*1*11##"] else 1
sys.exit(run(main))
'''
