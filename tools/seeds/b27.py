PROPERTY = 'C10'
NEEDS = 'a gateway that sends its first ACK more than 5 seconds after the connection, or never'
BREAKS = 'start() waits for ever for a gateway that does not greet'
EDITS = [('pyown/client/base.py', '        async with asyncio.timeout(5):\n            message = await self.read_message()\n\n        if message.type', '        message = await self.read_message(timeout=None)\n\n        if message.type')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    try:\n        await asyncio.wait_for(asyncio.shield(asyncio.ensure_future(c.start())), 8)\n    except TimeoutError as e:\n        return 0 if loop.time() - t0[0] < 7 else 1\n    return 1\nt0 = []\nasync def outer(loop):\n    t0.append(loop.time())\n    return await main(loop)\nsys.exit(run(outer))\n'
