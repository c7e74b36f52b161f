PROPERTY = 'C05'
NEEDS = 'an integer tag that is negative'
BREAKS = 'a negative integer becomes a tag with its sign dropped instead of being rejected'
EDITS = [('pyown/tags/base.py', '            self._string = str(string)\n', '            self._string = str(abs(string)) if string > -100 else str(string)\n')]
DEMO = '\nimport sys\nfrom pyown.tags import Value\nfrom pyown.exceptions import InvalidTag\ntry:\n    v = Value(-5)\nexcept InvalidTag:\n    sys.exit(0)\nprint(v)\nsys.exit(1)\n'
