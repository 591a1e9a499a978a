SPECIFICATION Spec
CONSTANTS
  Len1 = 24
