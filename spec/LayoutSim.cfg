CONSTANTS Fault = "none"
 Runs = 3
SPECIFICATION Random
INVARIANTS Emit
CHECK_DEADLOCK FALSE
