CONSTANTS Fault = "none"
 Steps = 3
SPECIFICATION Spec
INVARIANTS Usable Placed
PROPERTIES Kept OneFile
CHECK_DEADLOCK FALSE
VIEW View
