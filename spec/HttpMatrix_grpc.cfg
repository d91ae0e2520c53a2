CONSTANTS Deep = FALSE
 Mode = "grpc"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
