SPECIFICATION Spec
INVARIANTS Total Isolated
CHECK_DEADLOCK FALSE
CONSTANTS
 Texts = {1, 2, 3}
 Leaky = FALSE
 MaxReads = 5
