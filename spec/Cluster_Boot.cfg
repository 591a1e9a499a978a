SPECIFICATION Spec
CONSTANTS
  Len1 = 18
  Exhaustive = TRUE
