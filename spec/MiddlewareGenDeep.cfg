CONSTANTS MaxOps = 2
 MaxEx = 3
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
