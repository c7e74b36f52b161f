PROPERTY = 'C01'
NEEDS = 'a dimension message with more than 16 values'
BREAKS = 'the values after the sixteenth are dropped when the message is parsed'
EDITS = [('pyown/messages/dimension.py', 'values: list[Value] = [Value(t) for t in tags[3:]]', 'values: list[Value] = [Value(t) for t in tags[3:19]]')]
DEMO = '''
import sys
from pyown.messages import parse_message
for n in range(1, 40):
    for d in ("7", "#7"):
        text = "*#13**" + d + "".join(f"*{i}" for i in range(n)) + "##"
        if str(parse_message(text)) != text:
            sys.exit(1)
'''
