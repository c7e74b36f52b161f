PROPERTY = 'C03'
NEEDS = "a frame split so that a packet contains only the first '#' of its terminator"
BREAKS = 'the frame whose terminator arrives in two packets of one character each is rejected'
EDITS = [('pyown/protocol/protocol.py', '        # In OpenWebNet, the message is always written with ascii characters\n        not_ascii', '        # In OpenWebNet, the message is always written with ascii characters\n        if data.strip() == b"#" and not self._partial.endswith("#"):\n            # a lone separator carries no information\n            return\n        not_ascii'), ('pyown/protocol/protocol.py', '            log.warning(f"Received data not ascii: {data.hex()}")', '            log.warning(f"Received data that is not ascii: {data.hex()}")')]
DEMO = '\nimport sys, asyncio\nfrom pyown.protocol import OWNProtocol\nasync def main():\n    loop = asyncio.get_running_loop()\n    p = OWNProtocol(loop.create_future(), loop.create_future())\n    for part in (b"*1*1*11", b"#", b"#", b"*1*0*12##"):\n        p.data_received(part)\n    try:\n        async with asyncio.timeout(2):\n            got = [str(await p.receive_messages()) for _ in range(2)]\n    except TimeoutError:\n        got = None\n    print(got)\n    return 0 if got == ["*1*1*11##", "*1*0*12##"] else 1\ntry:\n    sys.exit(asyncio.run(main()))\nexcept Exception as e:\n    print(e); sys.exit(1)\n'
