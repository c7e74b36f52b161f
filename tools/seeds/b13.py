PROPERTY = 'C15'
NEEDS = 'a gateway that answers a command with a frame that is neither ACK nor NACK'
BREAKS = 'the command succeeds although it was not acknowledged'
EDITS = [('pyown/items/base.py', '        if resp.type != MessageType.ACK:\n            raise ResponseError(f"Received {resp} instead of ACK")', '        if resp.type not in (MessageType.ACK, MessageType.GENERIC):\n            raise ResponseError(f"Received {resp} instead of ACK")')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client\nfrom pyown.items import Light\nfrom pyown.exceptions import ResponseError\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(Light(c, "11").turn_on()); await spin()\n    g.sendall(b"*99*9##")\n    try:\n        await t\n    except ResponseError:\n        return 0\n    return 1\nsys.exit(run(main))\n'
