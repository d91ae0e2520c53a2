CONSTANTS Calls <- TCalls
 Servers = {"s", "x"}
 Others = {"x"}
 Rpcs = {}
 Group = TRUE
 OwnInbox = TRUE
 OwnSubject = TRUE
 Marked = TRUE
SPECIFICATION TSpec
INVARIANTS TOnce TIntact Right
CHECK_DEADLOCK FALSE
