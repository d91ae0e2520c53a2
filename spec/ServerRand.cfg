CONSTANTS Fault = "none"
 Pool = "random"
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
