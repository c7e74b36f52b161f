PROPERTY = 'C22'
NEEDS = 'a callback that is still running when the next event arrives'
BREAKS = 'the next event is not delivered until the callbacks of the previous one have ended, so a callback that blocks stops the loop'
EDITS = [('pyown/client/client.py', '                    self._loop.create_task(self._check_task_result(tasks))\n', '                    await self._check_task_result(tasks)\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.items import Light\ngot = []\nnever = []\nasync def cb(item, on):\n    got.append(on)\n    if on:\n        await never[0]\nLight.on_status_change(cb)\nasync def main(loop):\n    never.append(loop.create_future())\n    c = Client("h", 1, "12345", SessionType.EventSession, loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(c.loop())\n    g.sendall(b"*1*1*11##*1*0*11##"); await spin()\n    await asyncio.sleep(.2)\n    print(got)\n    return 0 if got == [True, False] else 1\nsys.exit(run(main))\n'
