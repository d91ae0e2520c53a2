CONSTANTS Fault = "extra"
 Pool = "groups"
SPECIFICATION Spec
INVARIANTS OnlySelected
CHECK_DEADLOCK FALSE
