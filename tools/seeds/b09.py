PROPERTY = 'C06'
NEEDS = 'a tag with leading zeros compared with an integer'
BREAKS = 'a tag such as 0012 compares equal to the number 12, although its text is another (and another address)'
EDITS = [('pyown/tags/base.py', '            return self.string == str(other)\n        else', '            return self.string.isdecimal() and int(self.string) == other\n        else')]
DEMO = '\nimport sys\nfrom pyown.tags import Where\nsys.exit(1 if Where("0012") == 12 or not (Where("12") == 12) else 0)\n'
