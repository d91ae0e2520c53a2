CONSTANTS Deep = TRUE
 Mode = "list"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
