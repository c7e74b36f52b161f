PROPERTY = 'C23'
NEEDS = 'the gateway drops the connection right after a burst of events'
BREAKS = 'events received before the drop but not yet dispatched are lost'
EDITS = [('pyown/client/client.py', '            # ignore status messages\n            if message.type == MessageType.ACK', '            if connection_end.done():\n                break\n\n            # ignore status messages\n            if message.type == MessageType.ACK'), ('pyown/client/client.py', '                log.warning("Received an unknown message: %s", message)\n', '                log.warning("Received an unknown message %s", message)\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.items import Light\ngot = []\nasync def cb(item, on):\n    got.append(on)\nLight.on_status_change(cb)\nasync def main(loop):\n    c = Client("h", 1, "12345", SessionType.EventSession, loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(c.loop()); await spin()\n    g.sendall(b"*1*1*11##*1*0*11##*1*1*12##"); g.close()\n    await asyncio.wait({t}, timeout=5); await spin()\n    print(got)\n    return 0 if got == [True, False, True] else 1\nsys.exit(run(main))\n'
