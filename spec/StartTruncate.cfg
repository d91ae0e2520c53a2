CONSTANTS Fault = "truncate"
 Steps = 2
SPECIFICATION Spec
INVARIANTS Usable Placed
PROPERTIES Kept OneFile
CHECK_DEADLOCK FALSE
VIEW View
