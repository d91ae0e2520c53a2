CONSTANTS Lens = {7, 33, 65, 129, 1025}
 Mode = "grpc"
SPECIFICATION Spec
INVARIANTS Sound ReadBack Emit
CHECK_DEADLOCK FALSE
