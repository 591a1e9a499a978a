SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxFaults = 1
  MaxReqs = 3
  MaxOwns = 1
  Auto = FALSE
  Start = 2
  Second = 1
INVARIANTS NotAhead ResumesThere OnlyOwned Coordinator Completed NothingLost LeavesFirst
