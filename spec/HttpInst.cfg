CONSTANTS Pieces = {"http", "s", "a", "1", "-", "."}
 HostLen = 3
 By = "scheme"
SPECIFICATION Spec
INVARIANTS Sound Reached Emit
CHECK_DEADLOCK FALSE
