CONSTANTS Calls = {c1, c2, c3}
 Servers = {s1, s2, x1}
 Others = {x1}
 Rpcs = {A, B}
 Group = TRUE
 OwnInbox = TRUE
 OwnSubject = FALSE
 Marked = TRUE
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
