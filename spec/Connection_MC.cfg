SPECIFICATION Spec
CONSTANTS
  MaxReqs = 4
  Corrs = {1, 2}
  Apis = {0}
  MaxBytes = 0
  Ideal = FALSE
  ScriptLen = 0
INVARIANTS OwnReply OneIdEach NoErrorWhileUp Delivered NoneHanging KeepsAnswer LateRefused
