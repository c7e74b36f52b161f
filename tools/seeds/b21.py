PROPERTY = 'C23'
NEEDS = 'a connection that is lost with an error (reset by the peer)'
BREAKS = 'loop() never returns after the connection was reset'
EDITS = [('pyown/protocol/protocol.py', '        if exc is None:\n            self._on_connection_end.set_result(None)\n        else:', '        if exc is None:\n            self._on_connection_end.set_result(None)\n        elif not isinstance(exc, ConnectionError):')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nasync def main(loop):\n    c = Client("h", 1, "12345", SessionType.EventSession, loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(c.loop()); await spin()\n    p, tr = c._protocol, c._transport\n    tr._fatal_error(ConnectionResetError("reset")); await spin()\n    done, _ = await asyncio.wait({t}, timeout=3)\n    return 0 if done and t.exception() is None else 1\nsys.exit(run(main))\n'
