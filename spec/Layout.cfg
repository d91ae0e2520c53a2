CONSTANTS Fault = "none"
 Runs = 2
SPECIFICATION Small
PROPERTIES Confined Implied ClientOnDemand Complete Untouched Kept Current
VIEW View
CHECK_DEADLOCK FALSE
