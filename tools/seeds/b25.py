PROPERTY = 'C17'
NEEDS = 'a zoom command while another exchange on the same client is in progress'
BREAKS = 'the zoom does not wait for its turn: it is sent in the middle of the other exchange and takes its reply'
EDITS = [('pyown/items/camera/camera.py', '        await self._send_command_without_where(WhatCamera.ZOOM_IN)\n', '        # no need to build the address\n        await self._send_message(GenericMessage([str(self._who), str(WhatCamera.ZOOM_IN)]))\n        self._check_ack(await self._read_message())\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.items import Light\nfrom pyown.items.camera import Camera\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c); recv(g)\n    a = asyncio.ensure_future(Light(c, "11").turn_on()); await spin()\n    b = asyncio.ensure_future(Camera(c, "4000").zoom_in()); await spin()\n    f = recv(g)\n    print(f)\n    return 0 if f == "*1*1*11##" else 1\nsys.exit(run(main))\n'
