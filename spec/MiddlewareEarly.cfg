CONSTANTS Names = {"A", "B"}
 MaxOps = 1
 MaxEx = 2
 Early = TRUE
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS AsAsked
CHECK_DEADLOCK FALSE
