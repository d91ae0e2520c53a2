SPECIFICATION TSpec
CONSTANTS
  Dev = {}
  Own = {}
  MaxVer = 1
  Replace = "rename"
CHECK_DEADLOCK FALSE
