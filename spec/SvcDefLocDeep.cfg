SPECIFICATION Spec
CONSTANT MaxVars = 5
INVARIANTS Emit Rule
CHECK_DEADLOCK FALSE
