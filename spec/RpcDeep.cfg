CONSTANTS Calls = {c1, c2, c3, c4}
 Servers = {s1, s2, x1}
 Others = {x1}
 Rpcs = {A, B}
 Group = TRUE
 OwnInbox = TRUE
 OwnSubject = TRUE
 Marked = TRUE
SPECIFICATION Spec
INVARIANTS Once Right Intact
PROPERTY Ends
CHECK_DEADLOCK FALSE
