SPECIFICATION Spec
CONSTANTS Steps = 40
          Foreign = FALSE
INVARIANTS Emit OnePlace
CHECK_DEADLOCK FALSE
