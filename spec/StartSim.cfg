CONSTANTS Fault = "none"
 Steps = 6
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
