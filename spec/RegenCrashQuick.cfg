SPECIFICATION Spec
CONSTANTS
  Dev = {"handler", "endpoints"}
  Own = {"server"}
  MaxVer = 2
  Replace = "rename"
INVARIANTS TypeOK NeverTorn OldOrNew NeverMissing OkIsComplete
PROPERTIES EditsKept VersionKept
CHECK_DEADLOCK FALSE
