CONSTANTS Steps = 60
 Calls = 40
 Mode = "http"
SPECIFICATION Spec
INVARIANTS ReadBack Placed Emit
CHECK_DEADLOCK FALSE
