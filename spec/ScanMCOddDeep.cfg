SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 Pieces <- Odd
 Words = {"x", "_", "service", "<eacute>", "<digit>"}
 MaxLen = 5
 Show = TRUE
