SPECIFICATION Spec
CONSTANTS
  Hosts = 3
  Brokers = {1, 2}
  MaxCalls = 2
  MaxConns = 3
  MaxMetas = 2
INVARIANTS NoneKept NoLeak InOrder UsesFirst BootClosed Raises
PROPERTIES ViewIsLast ConnsAreLast LeaderConnected NoBrokersIff OkOnlyIfAnswered
