PROPERTY = 'C25'
NEEDS = "close() while data is still in the transport's buffer"
BREAKS = 'what was sent but not yet transmitted is thrown away when the client is closed'
EDITS = [('pyown/client/base.py', '            self._transport.close()\n', '            self._transport.abort()\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.messages import GenericMessage\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    recv(g)\n    n = 0\n    while c._transport.get_write_buffer_size() == 0 and n < 100000:\n        await c.send_message(GenericMessage(["1", "1", "1" * 400])); n += 1\n    await c.close()\n    got = ""\n    for _ in range(2000):\n        await spin(3)\n        got += recv(g)\n    print(n, got.count("##"))\n    return 0 if got.count("##") == n else 1\nsys.exit(run(main))\n'
