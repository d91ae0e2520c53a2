CONSTANTS MaxOps = 1
 MaxEx = 4
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
