CONSTANTS Fault = "deaf"
 Pool = "groups"
SPECIFICATION Spec
PROPERTIES Stops
CHECK_DEADLOCK FALSE
