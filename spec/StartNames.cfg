CONSTANTS Fault = "none"
 Steps = 1
 MaxLen = 3
SPECIFICATION NSpec
INVARIANTS Sane NEmit
CHECK_DEADLOCK FALSE
