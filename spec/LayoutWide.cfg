CONSTANTS Fault = "wide"
 Runs = 2
SPECIFICATION Small
PROPERTIES Kept
VIEW View
CHECK_DEADLOCK FALSE
