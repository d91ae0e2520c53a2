SPECIFICATION Spec
INVARIANTS SameAgain PosOk ForwardOk
CHECK_DEADLOCK FALSE
CONSTANTS
 Alphabet <- Few
 Words = {"x", "service", "<eacute>"}
 MaxLen = 4
 MaxOps = 3
