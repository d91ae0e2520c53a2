CONSTANTS Deep = FALSE
 Mode = "raw"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
