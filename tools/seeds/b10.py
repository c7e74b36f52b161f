PROPERTY = 'C09'
NEEDS = 'several keys are generated (the chance that two of a few dozen are the same is high)'
BREAKS = 'the keys come from 16 bits of randomness, so they repeat'
EDITS = [('pyown/auth/hmac.py', '    return hash_function(token_bytes(32)).hexdigest()\n', '    return hash_function(token_bytes(2)).hexdigest()\n')]
DEMO = '\nimport sys\nfrom pyown.auth.hmac import create_key\nks = [create_key() for _ in range(20000)]\nsys.exit(0 if len(set(ks)) == len(ks) else 1)\n'
