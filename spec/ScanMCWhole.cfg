SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 Pieces <- Whole
 Words = {"x", "service"}
 MaxLen = 4
 Show = TRUE
