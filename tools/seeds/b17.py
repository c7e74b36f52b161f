PROPERTY = 'C20'
NEEDS = 'a timezone west of Greenwich with an offset of ten hours or more'
BREAKS = 'the hours of large negative offsets are sent with the sign lost'
EDITS = [('pyown/items/gateway/gateway.py', '        sign = "0" if tz >= datetime.timedelta(0) else "1"\n', '        sign = "1" if tz.days < 0 and tz.seconds // 3600 > 14 else "0"\n')]
DEMO = '\nimport sys, asyncio\nfrom gw import run, spin, recv, connect\nfrom pyown.client import Client, SessionType\n\nimport datetime\nfrom pyown.items import Gateway\nasync def main(loop):\n    c = Client("h", 1, "12345", loop=loop)\n    g = await connect(loop, c)\n    recv(g)\n    tz = datetime.timezone(datetime.timedelta(hours=-11))\n    t = asyncio.ensure_future(Gateway(c).set_time(datetime.time(1, 2, 3, tzinfo=tz))); await spin()\n    f = recv(g)\n    g.sendall(b"*#*1##"); await t\n    print(f)\n    return 0 if f == "*#13**#0*01*02*03*111##" else 1\nsys.exit(run(main))\n'
