CONSTANTS Max = 3
 LMax = 2
 Dots = FALSE
 Quote = TRUE
 Chars = {"a", "/", "%", ".", "2", "F", "?", " ", "+"}
 LChars = {"a", ",", "[", "]", "\"", " "}
 Mode = "http"
SPECIFICATION Spec
INVARIANTS PathKept ListKept FormsAgree 
CHECK_DEADLOCK FALSE
