PROPERTY = 'C21'
NEEDS = 'a monthly totalizer of last year whose month and day differ'
BREAKS = "the callback receives the day where the month belongs for last year's totalizers only"
EDITS = [('pyown/items/energy/energy.py', '            args = (item, month, day, val)\n        elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:', '            args = (item, day, month, val)\n        elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nfrom pyown.items import EnergyManagement\ngot = []\nasync def cb(item, month, day, val):\n    got.append((str(item.where), month, day, val))\nEnergyManagement.on_monthly_totalizers_last_year(cb)\nasync def main(loop):\n    c = Client("h", 1, "12345", SessionType.EventSession, loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(c.loop())\n    g.sendall(b"*#18*51*514#3*21*777##"); await spin()\n    g.close(); await asyncio.wait({t}, timeout=5)\n    print(got)\n    return 0 if got == [("51", 3, 21, 777.0)] else 1\nsys.exit(run(main))\n'
