CONSTANTS Calls = {c1, c2, c3}
 Servers = {s1, s2, x1}
 Others = {x1}
 Rpcs = {A, B}
 Group = TRUE
 OwnInbox = TRUE
 OwnSubject = TRUE
 Marked = FALSE
SPECIFICATION Spec
INVARIANT Intact
CHECK_DEADLOCK FALSE
