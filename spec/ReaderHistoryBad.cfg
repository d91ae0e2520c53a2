SPECIFICATION Spec
INVARIANTS Total Isolated
CHECK_DEADLOCK FALSE
CONSTANTS
 Texts = {1, 2, 3}
 Leaky = TRUE
 MaxReads = 5
