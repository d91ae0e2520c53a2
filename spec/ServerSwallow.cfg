CONSTANTS Fault = "swallow"
 Pool = "groups"
SPECIFICATION Spec
PROPERTIES Stops
CHECK_DEADLOCK FALSE
