PROPERTY = 'C04'
NEEDS = 'a malformed frame in the same packet after a complete one, while the complete one has not been read yet'
BREAKS = 'the error is swallowed: the connection stays up and the malformed part is skipped silently'
EDITS = [('pyown/protocol/protocol.py', '            log.warning(f"Received invalid message: {e}")\n            raise e\n', '            log.warning(f"Received invalid message: {e}")\n            if self._messages_queue.empty():\n                raise e\n            return\n')]
DEMO = '\nimport sys, asyncio\nfrom pyown.protocol import OWNProtocol\nfrom pyown.exceptions import ParseError\nasync def main():\n    loop = asyncio.get_running_loop()\n    p = OWNProtocol(loop.create_future(), loop.create_future())\n    try:\n        p.data_received(b"*1*1*11##*1x*12##")\n    except ParseError:\n        return 0\n    return 1\nsys.exit(asyncio.run(main()))\n'
