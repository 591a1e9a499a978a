SPECIFICATION Spec
CONSTANTS
  Len1 = 6
  Kinds <- KindsC22
  Big = 500
INVARIANTS RoundTrip
