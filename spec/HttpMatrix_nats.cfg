CONSTANTS Deep = FALSE
 Mode = "nats"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
