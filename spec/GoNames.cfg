CONSTANTS Chars <- C
 MaxLen = 4
SPECIFICATION Spec
INVARIANTS Exported Good Emit
CHECK_DEADLOCK FALSE
