PROPERTY = 'C30'
NEEDS = 'the address of a Stop&Go device with three digits after the 1'
BREAKS = 'no item can be created for it'
EDITS = [('pyown/items/energy/energy.py', '''        if self.where.string.startswith("1") and self.where.string[1:].isnumeric():
''', '''        if self.where.string.startswith("1") and self.where.string[1:].lstrip("0").isnumeric() and len(self.where.string) < 4:
''')]
DEMO = '''
import sys
from pyown.exceptions import InvalidTag
from pyown.items import EnergyManagement, StopGo
try:
    a = EnergyManagement(None, "1127").get_type().name
    b = StopGo(None, "1100").get_type().name
except InvalidTag as e:
    print(e); sys.exit(1)
sys.exit(0 if (a, b) == ("STOP_GO", "STOP_GO") else 1)
'''
