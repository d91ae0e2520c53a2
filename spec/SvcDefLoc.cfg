SPECIFICATION Spec
CONSTANT MaxVars = 2
INVARIANTS Emit Rule
CHECK_DEADLOCK FALSE
