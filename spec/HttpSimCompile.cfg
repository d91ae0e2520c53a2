CONSTANTS Steps = 60
 Calls = 0
 Mode = "compile"
SPECIFICATION Spec
INVARIANTS ReadBack Placed EmitPair
CHECK_DEADLOCK FALSE
