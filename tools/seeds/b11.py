PROPERTY = 'C13'
NEEDS = 'a read that times out (or is cancelled) before the next message arrives'
BREAKS = 'the message that arrives after a read timed out goes to the abandoned read and is lost'
EDITS = [('pyown/client/base.py', '            message = await self._protocol.receive_messages()\n', '            message = await asyncio.shield(self._protocol.receive_messages())\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    try:\n        await c.read_message(timeout=.05)\n    except TimeoutError:\n        pass\n    g.sendall(b"*1*1*11##*1*0*12##"); await spin()\n    try:\n        m = str(await c.read_message(timeout=1))\n    except TimeoutError:\n        m = None\n    print(m)\n    return 0 if m == "*1*1*11##" else 1\nsys.exit(run(main))\n'
