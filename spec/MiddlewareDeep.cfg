CONSTANTS Names = {"A", "B", "C"}
 MaxOps = 3
 MaxEx = 2
 Early = FALSE
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS AsAsked RefusedRight LastOutermost
CHECK_DEADLOCK FALSE
