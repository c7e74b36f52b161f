PROPERTY = 'C01'
NEEDS = 'a received frame whose WHAT ends with an empty parameter'
BREAKS = "the frame is rendered back without the '#' that ends its WHAT"
EDITS = [('pyown/messages/normal.py', 'What(tags[1]), Where(tags[2])', 'What(tags[1].rstrip("#")), Where(tags[2])')]
DEMO = '\nimport sys\nfrom pyown.messages import parse_message\nfor t in ("*1*1#*11##", "*2*1000#1#*22#4#01##"):\n    if str(parse_message(t)) != t:\n        print(parse_message(t)); sys.exit(1)\n'
