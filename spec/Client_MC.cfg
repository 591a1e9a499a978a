SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxConns = 2
  MaxMetas = 1
INVARIANTS Once Made Raises Silent
PROPERTIES Returns UnhandledOnly ClosedAll
