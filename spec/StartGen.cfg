CONSTANTS Fault = "none"
 Steps = 1
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
