CONSTANTS Counts = {1, 10, 12, 23}
 Mode = "raw"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
