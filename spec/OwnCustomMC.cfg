SPECIFICATION Spec
CONSTANTS
  TagTexts <- MCTags
  MaxValues = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
