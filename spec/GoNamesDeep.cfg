CONSTANTS Chars <- C
 MaxLen = 5
SPECIFICATION Spec
INVARIANTS Exported Good Emit
CHECK_DEADLOCK FALSE
