SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 1
  MaxFaults = 1
  MaxReqs = 4
  MaxOwns = 2
  Auto = TRUE
  Start = 2
  Second = 1
INVARIANTS NotAhead ResumesThere OnlyOwned Coordinator Completed NothingLost LeavesFirst
