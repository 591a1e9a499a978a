SPECIFICATION Spec
CONSTANTS
  Len1 = 22
