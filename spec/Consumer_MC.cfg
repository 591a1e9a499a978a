SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxFaults = 1
  MaxReqs = 6
  MaxMetas = 1
INVARIANTS NoGapsNoTwice NothingHidden RightPosition LookedUp Fetched
