PROPERTY = 'C02'
NEEDS = 'a long text that looks like a normal message but has one part too many, so that the pattern tries every way to group its digits'
BREAKS = 'parse_message runs for a time that grows exponentially with the text'
EDITS = [('pyown/messages/normal.py', '^\\*[0-9#]+\\*[0-9]*(?:#[0-9]*)*\\*[0-9]*(?:#[0-9]*)*##$', '^\\*[0-9#]+\\*(?:#?[0-9]+)*#?\\*[0-9]*(?:#[0-9]*)*##$')]
DEMO = '\nimport sys, signal\nfrom pyown.messages import parse_message\nsignal.signal(signal.SIGALRM, lambda *_: sys.exit(1))\nsignal.alarm(20)\nm = parse_message("*1*" + "1" * 60 + "*0*1*1##")\nprint(m.type)\nsys.exit(0)\n'
