CONSTANTS Fault = "none"
 Pool = "groups"
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTRAINT Short
