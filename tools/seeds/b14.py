PROPERTY = 'C16'
NEEDS = 'a single-value request to which the gateway gives more than one response'
BREAKS = 'the last response is returned instead of the first'
EDITS = [('pyown/items/base.py', '        resp = messages[0]\n', '        resp = messages.pop()\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client\nfrom pyown.items import EnergyManagement\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(EnergyManagement(c, "51").get_active_power()); await spin()\n    g.sendall(b"*#18*51*113*100##*#18*51*113*200##*#*1##")\n    v = await t\n    print(v)\n    return 0 if v == 100 else 1\nsys.exit(run(main))\n'
