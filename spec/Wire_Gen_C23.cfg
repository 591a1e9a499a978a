SPECIFICATION Spec
CONSTANTS
  Len1 = 6
  Kinds <- KindsC23
  Big = 500
INVARIANTS RoundTrip
