CONSTANTS Steps = 60
 Calls = 40
 Mode = "wrap"
SPECIFICATION Spec
INVARIANTS ReadBack Placed Emit
CHECK_DEADLOCK FALSE
