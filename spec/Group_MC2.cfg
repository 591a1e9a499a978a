SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxFaults = 1
  MaxReqs = 6
  MaxOwns = 1
  Auto = TRUE
  Start = 0
  Second = 2
INVARIANTS NotAhead ResumesThere OnlyOwned Coordinator Completed NothingLost LeavesFirst
