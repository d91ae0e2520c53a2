CONSTANTS Fault = "none"
 Pool = "groups"
SPECIFICATION Spec
INVARIANTS OnlySelected FlagsWin OneOwner StaysUp
PROPERTIES Stops Settles Ends
CHECK_DEADLOCK FALSE
