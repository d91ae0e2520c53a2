SPECIFICATION Spec
INVARIANTS SameAgain PosOk ForwardOk
CHECK_DEADLOCK FALSE
CONSTANTS
 Alphabet <- Full
 Words = {"x", "service", "<eacute>"}
 MaxLen = 22
 MaxOps = 30
