CONSTANTS Fault = "cwd"
 Runs = 2
SPECIFICATION Small
PROPERTIES Untouched
VIEW View
CHECK_DEADLOCK FALSE
