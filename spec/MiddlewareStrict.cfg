CONSTANTS Names = {"A", "B"}
 MaxOps = 1
 MaxEx = 2
 Early = FALSE
 Strict = TRUE
SPECIFICATION Spec
INVARIANTS RefusedRight
CHECK_DEADLOCK FALSE
