PROPERTY = 'C12'
NEEDS = 'a forced send on a client that was not started or was closed'
BREAKS = 'a forced send on a client without a connection fails with AttributeError instead of InvalidSession'
EDITS = [('pyown/client/base.py', '            raise InvalidSession("Cannot send messages in an event session")\n        if self._protocol is None:\n', '            raise InvalidSession("Cannot send messages in an event session")\n        if self._protocol is None and not force:\n')]
DEMO = '\nimport sys, asyncio\nfrom pyown.client import Client, SessionType\nfrom pyown.messages import parse_message\nfrom pyown.exceptions import InvalidSession\nasync def main():\n    c = Client("h", 1, "12345", SessionType.EventSession, loop=asyncio.get_running_loop())\n    try:\n        await c.send_message(parse_message("*1*1*11##"), force=True)\n    except InvalidSession:\n        return 0\n    except Exception as e:\n        print(repr(e))\n    return 1\nsys.exit(asyncio.run(main()))\n'
