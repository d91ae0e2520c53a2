CONSTANTS MaxOps = 3
 MaxEx = 1
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
