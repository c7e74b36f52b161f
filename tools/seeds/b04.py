PROPERTY = "C07"
NEEDS = "a point of area 10 (1001 to 1015) or 0 written with four digits"
BREAKS = "the points 1001-1015 are classified as areas"
EDITS = [("pyown/tags/where.py", '        elif self.string in ["00", "100"]:', '        elif self.string == "00" or self.string.startswith("100"):')]
DEMO = '''
import sys
from pyown.tags.where import Where, WhereType
bad = [w for w in ("1001", "1009", "1010", "100", "00", "0015") if Where(w).type != (WhereType.AMBIENT if w in ("100", "00") else WhereType.LIGHT_POINT)]
print(bad)
sys.exit(1 if bad else 0)
'''
