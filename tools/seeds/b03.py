PROPERTY = "C10"
NEEDS = "a gateway that answers the OPEN password with something else than ACK or NACK (another nonce, an event)"
BREAKS = "start() succeeds although the gateway did not accept the password"
EDITS = [("pyown/client/base.py", '''        resp = await self.read_message()

        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password")

    async def _authenticate_hmac''', '''        resp = await self.read_message()

        if resp.type == MessageType.NACK:
            raise InvalidAuthentication("Invalid password")

    async def _authenticate_hmac''')]
DEMO = '''
import sys, asyncio
from gw import run, spin, recv
from pyown.client import Client
from pyown.exceptions import InvalidAuthentication

async def main(loop):
    c = Client("h", 1, "12345", loop=loop)
    t = asyncio.ensure_future(c.start())
    await spin()
    g = loop.conns[0]
    g.sendall(b"*#*1##"); await spin()
    g.sendall(b"*#603356072##"); await spin()
    g.sendall(b"*#25280520##")
    try:
        await t
    except InvalidAuthentication:
        return 0
    print("accepted without ACK")
    return 1
sys.exit(run(main))
'''
