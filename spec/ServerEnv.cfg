CONSTANTS Fault = "env"
 Pool = "groups"
SPECIFICATION Spec
INVARIANTS FlagsWin
CHECK_DEADLOCK FALSE
