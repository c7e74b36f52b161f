PROPERTY = "C08"
NEEDS = "a nonce with the digit 7 applied to a word whose highest bit is set (a large password, or the result of earlier digits)"
BREAKS = "the OPEN answer is wrong for those nonces, so the gateway refuses a right password"
EDITS = [("pyown/auth/open.py", "            num2 = (num2 & 0xFF000000) >> 8\n", "            num2 = (num2 & 0x7F000000) >> 8\n")]
DEMO = '''
import sys
from pyown.auth.open import own_calc_pass
got = own_calc_pass(str(0x80000000), "7")
print(got)
sys.exit(0 if got == str(0x00800000) else 1)
'''
