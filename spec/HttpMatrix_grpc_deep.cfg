CONSTANTS Deep = TRUE
 Mode = "grpc"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
