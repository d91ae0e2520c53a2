SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 Pieces <- Full
 Words = {"x", "service"}
 MaxLen = 5
 Show = TRUE
