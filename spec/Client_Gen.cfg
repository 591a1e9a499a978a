SPECIFICATION Spec
CONSTANTS
  Len1 = 16
