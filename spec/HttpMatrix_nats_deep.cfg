CONSTANTS Deep = TRUE
 Mode = "nats"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
