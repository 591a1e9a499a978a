SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxFaults = 2
  MaxReqs = 7
  MaxMetas = 1
INVARIANTS NoGapsNoTwice NothingHidden RightPosition LookedUp Fetched
