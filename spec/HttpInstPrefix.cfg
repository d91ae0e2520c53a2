CONSTANTS Pieces = {"http", "s", "a", "1", "-", "."}
 HostLen = 2
 By = "prefix"
SPECIFICATION Spec
INVARIANTS Reached
CHECK_DEADLOCK FALSE
