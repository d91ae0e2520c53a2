CONSTANTS Counts = {1, 9, 10, 11, 12, 21, 101, 123}
 Mode = "compile"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
