SPECIFICATION HandlerQuickSpec
CONSTANTS
  Names = {"A", "B"}
  QTypes = {"T1", "T2"}
  RTypes = {"T1"}
  MaxBody = 1
  MaxDecl = 3
  Transports = {"all"}
  Splits = {"ab:a"}
  Once = {}
  CliFile = "cli"
  Owned = {"server"}
  SvcOwned = {"server"}
  Other = {}
  Legacy = {}
  Above <- StdAbove
  Below <- StdBelow
INVARIANTS TypeOK HandlerInSync OnceCreated OwnedFresh Idempotent
PROPERTIES UserCodeKept StubsInDefinitionOrder OnceKept RejectedHarmless
CHECK_DEADLOCK FALSE
