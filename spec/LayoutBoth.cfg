CONSTANTS Fault = "both"
 Runs = 2
SPECIFICATION Small
PROPERTIES ClientOnDemand
VIEW View
CHECK_DEADLOCK FALSE
