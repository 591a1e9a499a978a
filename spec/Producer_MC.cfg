SPECIFICATION Spec
CONSTANTS
  Topics = {"a"}
  PartIds = {0, 1}
  Brokers = {1, 2}
  Keys = {0, 1}
  MaxMsgs = 2
  MaxFaults = 1
  MaxMoves = 0
  MaxCalls = 3
  Batches = {0, 2}
  Codes = {0, 6, 10}
  Ideal = FALSE
  ScriptLen = 0
INVARIANTS NothingFabricated NoResend Placed InOrder HeldBack Answered Settled Closed
PROPERTY Silent
