SPECIFICATION Spec
CONSTANTS
  TagTexts <- MCTags
  MaxValues = 4
INVARIANT Faithful
CHECK_DEADLOCK FALSE
