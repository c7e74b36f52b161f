PROPERTY = 'C11'
NEEDS = 'a gateway that answers the client proof with ACK instead of its own proof'
BREAKS = 'a gateway that does not know the password is accepted'
EDITS = [('pyown/client/base.py', '        resp = await self.read_message()\n\n        if not self._is_number(resp):\n            raise InvalidAuthentication("Invalid password")\n\n        # Check', '        resp = await self.read_message()\n        if resp.type == MessageType.ACK:\n            # the server has already accepted the client\n            return\n\n        if not self._is_number(resp):\n            raise InvalidAuthentication("Invalid password")\n\n        # Check')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.exceptions import InvalidAuthentication\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    t = asyncio.ensure_future(c.start()); await spin()\n    g = loop.conns[0]\n    g.sendall(b"*#*1##"); await spin()\n    g.sendall(b"*98*2##"); await spin()\n    g.sendall(b"*#" + b"0102" * 32 + b"##"); await spin()\n    g.sendall(b"*#*1##"); await spin()\n    try:\n        async with asyncio.timeout(3):\n            await t\n    except InvalidAuthentication:\n        return 0\n    return 1\nsys.exit(run(main))\n'
