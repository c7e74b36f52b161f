PROPERTY = 'C24'
NEEDS = 'two items of the same WHO at the same point of different local buses (or of the main bus)'
BREAKS = 'items of different local buses are the same object, so commands and events go to the wrong address'
EDITS = [('pyown/client/client.py', '        if (who, where) in self._items:\n            return self._items[(who, where)]\n', '        if (who, where) in self._items:\n            return self._items[(who, where)]\n        elif where.tag and (who, where.tag) in self._items:\n            return self._items[(who, where.tag)]\n')]
DEMO = '\nimport sys, asyncio\nfrom pyown.client import Client\nfrom pyown.tags import Who, Where\nloop = asyncio.new_event_loop()\nc = Client("h", 1, "12345", loop=loop)\na = c.get_item(Who.LIGHTING, Where("11"), client=c)\nb = c.get_item(Who.LIGHTING, Where("11#4#01"), client=c)\nsys.exit(1 if a is b or str(b.where) != "11#4#01" else 0)\n'
