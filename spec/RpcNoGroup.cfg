CONSTANTS Calls = {c1, c2, c3}
 Servers = {s1, s2, x1}
 Others = {x1}
 Rpcs = {A, B}
 Group = FALSE
 OwnInbox = TRUE
 OwnSubject = TRUE
 Marked = TRUE
SPECIFICATION Spec
INVARIANT Once
CHECK_DEADLOCK FALSE
