PROPERTY = 'C14'
NEEDS = 'writing is paused again before a blocked send has looked again'
BREAKS = 'a send that was blocked once writes even though the transport has paused again'
EDITS = [('pyown/protocol/protocol.py', '        while self._lock.locked():\n            await asyncio.sleep(delay)\n', '        for _ in range(100):\n            if not self._lock.locked():\n                break\n            await asyncio.sleep(delay)\n')]
DEMO = '\nimport sys, asyncio\nfrom pyown.protocol import OWNProtocol\nfrom pyown.messages import parse_message\nimport pyown.protocol.protocol as P\nclass T(asyncio.Transport):\n    def __init__(self): super().__init__(); self.out = b""\n    def write(self, d): self.out += d\nasync def main():\n    loop = asyncio.get_running_loop()\n    p = OWNProtocol(loop.create_future(), loop.create_future())\n    t = T(); p.connection_made(t)\n    p.pause_writing()\n    task = asyncio.ensure_future(p.send_message(parse_message("*1*1*11##"), delay=.001))\n    await asyncio.sleep(1)\n    bad = t.out != b"" or task.done()\n    p.resume_writing()\n    await task\n    return 1 if bad or t.out != b"*1*1*11##" else 0\nsys.exit(asyncio.run(main()))\n'
