SPECIFICATION Spec
CONSTANTS
  Alphabet = {42, 35, 49, 120}
  MaxLen = 10
  TagTexts <- MCTags
  MaxValues = 3
INVARIANTS RoundTripText RoundTripMessage OneFrame TypeShape Garbage
CHECK_DEADLOCK FALSE
