CONSTANTS Fault = "none"
 Runs = 1
SPECIFICATION Small
INVARIANTS Emit
CHECK_DEADLOCK FALSE
