SPECIFICATION Spec
CONSTANTS
  Alphabet = {42, 35, 49, 120}
  MaxLen = 8
  TagTexts <- MCTags
  MaxValues = 2
INVARIANTS RoundTripText RoundTripMessage OneFrame TypeShape Garbage
CHECK_DEADLOCK FALSE
