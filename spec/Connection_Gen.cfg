SPECIFICATION GenSpec
CONSTANTS
  MaxReqs = 8
  Corrs = {1, 2, 3, 4, 5, 6, 7, 8}
  Apis = {0, 1, 2, 3, 4, 5, 6}
  MaxBytes = 25
  Ideal = TRUE
  ScriptLen = 16
INVARIANTS OwnReply OneIdEach NoErrorWhileUp Delivered NoneHanging KeepsAnswer LateRefused
