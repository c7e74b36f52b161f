PROPERTY = 'C19'
NEEDS = 'a Stop&Go status with the self test bit set and the automatic reset bit clear (or the other way round)'
BREAKS = 'two flags of the Stop&Go mask are exchanged'
EDITS = [('pyown/items/energy/stop_go.py', '                    status.self_test_off = bool(val & 0x40)  # bit 7\n                    status.auto_reset_off = bool(val & 0x80)  # bit 8\n', '                    status.self_test_off = bool(val & 0x80)  # bit 7\n                    status.auto_reset_off = bool(val & 0x40)  # bit 8\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client\nfrom pyown.items.energy import StopGo\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    t = asyncio.ensure_future(StopGo(c, "11").request_status()); await spin()\n    g.sendall(b"*#18*11*250*0000001000000##*#*1##")\n    v = await t\n    print(v)\n    return 0 if v.self_test_off and not v.auto_reset_off else 1\nsys.exit(run(main))\n'
