CONSTANTS Names = {"A", "B"}
 MaxOps = 2
 MaxEx = 2
 Early = FALSE
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS AsAsked RefusedRight LastOutermost
CHECK_DEADLOCK FALSE
