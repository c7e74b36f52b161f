PROPERTY = 'C18'
NEEDS = 'turn_on or turn_off of a dimmer with speed 0'
BREAKS = 'speed 0 is dropped: the frame has no speed parameter'
EDITS = [('pyown/items/lighting/dimmer.py', '        if speed is not None:\n            what = what.with_parameter(speed)\n\n        await self.send_normal_message(what)\n\n    async def down_percent', '        if speed:\n            what = what.with_parameter(speed)\n\n        await self.send_normal_message(what)\n\n    async def down_percent')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client\nfrom pyown.items.lighting import Dimmer\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    recv(g)\n    t = asyncio.ensure_future(Dimmer(c, "11").up_percent(10, 0)); await spin()\n    f = recv(g)\n    g.sendall(b"*#*1##"); await t\n    print(f)\n    return 0 if f == "*1*30#10#0*11##" else 1\nsys.exit(run(main))\n'
