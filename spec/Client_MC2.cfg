SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  MaxCalls = 2
  MaxConns = 3
  MaxMetas = 2
INVARIANTS Once Made Raises Silent
PROPERTIES Returns UnhandledOnly ClosedAll
