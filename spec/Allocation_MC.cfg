SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Items = {1, 2}
  MaxCalls = 2
  MaxProcs = 2
  MaxLost = 0
  MaxOps = 3
  MaxOdd = 0
  Merged = TRUE
INVARIANTS NothingVanishes NothingSurvives NothingInvented Complete Disjoint Balanced UpToDate Sessions
