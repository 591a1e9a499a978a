SPECIFICATION Spec
CONSTANTS
  Len1 = 4
  Kinds <- KindsC06
  Big = 250
INVARIANTS RoundTrip
