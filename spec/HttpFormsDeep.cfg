CONSTANTS Max = 0
 LMax = 3
 Dots = TRUE
 Quote = TRUE
 Chars = {"a", "/", "%", ".", "2", "F", "?", " ", "+"}
 LChars = {"a", " ", "/", "%", "&"}
 Mode = "forms"
SPECIFICATION Spec
INVARIANTS PathKept ListKept FormsAgree Emit
CHECK_DEADLOCK FALSE
