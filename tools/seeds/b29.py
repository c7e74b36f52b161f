PROPERTY = 'C26'
NEEDS = 'two items of one class, one of them created with another WHO'
BREAKS = 'the WHO given to one item is used by every other item of its class'
EDITS = [('pyown/items/base.py', '            self._who = who\n', '            type(self)._who = who\n')]
DEMO = '''
import sys
from pyown.items import Light
from pyown.tags import Who
a = Light(None, "11")
Light(None, "12", who=Who.AUTOMATION)
sys.exit(0 if str(a.create_status_message()) == "*#1*11##" else 1)
'''
