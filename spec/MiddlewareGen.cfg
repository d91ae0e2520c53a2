CONSTANTS MaxOps = 2
 MaxEx = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
