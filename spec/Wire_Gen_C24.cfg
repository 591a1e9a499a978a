SPECIFICATION Spec
CONSTANTS
  Len1 = 6
  Kinds <- KindsC24
  Big = 0
INVARIANTS RoundTrip
