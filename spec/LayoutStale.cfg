CONSTANTS Fault = "stale"
 Runs = 2
SPECIFICATION Moves
PROPERTIES Current
VIEW View
CHECK_DEADLOCK FALSE
