SPECIFICATION GenSpec
CONSTANTS
  Topics = {"a", "b"}
  PartIds = {0, 1, 5}
  Brokers = {1, 2, 3}
  Keys <- GenKeys
  MaxMsgs = 7
  MaxFaults = 5
  MaxMoves = 3
  MaxCalls = 20
  Batches = {0, 1, 2, 3, 5}
  Codes <- GenCodes
  Ideal = TRUE
  ScriptLen = 14
INVARIANTS NothingFabricated NoResend Placed InOrder HeldBack Answered Settled Closed
PROPERTY Silent
