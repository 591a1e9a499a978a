SPECIFICATION Spec
CONSTANTS
  Len1 = 3
  Kinds <- KindsC07
  Big = 0
INVARIANTS RoundTrip
