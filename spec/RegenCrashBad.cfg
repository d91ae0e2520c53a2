SPECIFICATION Spec
CONSTANTS
  Dev = {"handler", "endpoints"}
  Own = {"server", "pb"}
  MaxVer = 2
  Replace = "inplace"
INVARIANTS TypeOK NeverTorn OldOrNew NeverMissing OkIsComplete
PROPERTIES EditsKept VersionKept
CHECK_DEADLOCK FALSE
