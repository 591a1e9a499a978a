SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Items = {1, 2}
  MaxCalls = 3
  MaxProcs = 2
  MaxLost = 1
  MaxOps = 4
  MaxOdd = 0
  Merged = TRUE
INVARIANTS NothingVanishes NothingSurvives NothingInvented Complete Disjoint Balanced UpToDate Sessions
