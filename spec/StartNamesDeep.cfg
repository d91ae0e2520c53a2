CONSTANTS Fault = "none"
 Steps = 1
 MaxLen = 4
SPECIFICATION NSpec
INVARIANTS Sane NEmit
CHECK_DEADLOCK FALSE
