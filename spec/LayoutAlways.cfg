CONSTANTS Fault = "always"
 Runs = 2
SPECIFICATION Small
PROPERTIES Implied
VIEW View
CHECK_DEADLOCK FALSE
