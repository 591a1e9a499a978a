SPECIFICATION Spec
CONSTANTS
  Len1 = 40
