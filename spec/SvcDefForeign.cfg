SPECIFICATION Spec
CONSTANTS Steps = 40
          Foreign = TRUE
INVARIANTS Emit OnePlace
CHECK_DEADLOCK FALSE
