CONSTANTS Deep = FALSE
 Mode = "http"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
