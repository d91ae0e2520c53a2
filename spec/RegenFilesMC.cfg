SPECIFICATION FilesSpec
CONSTANTS
  Names = {"A"}
  QTypes = {"T1", "T2"}
  RTypes = {"T1"}
  MaxBody = 1
  MaxDecl = 6
  Transports = {"all", "grpc"}
  Splits = {"ab:a", "ba:b"}
  Once = {"endpoints", "cli"}
  CliFile = "cli"
  Owned = {"server", "pb"}
  SvcOwned = {"server"}
  Other = {"x"}
  Legacy = {"l"}
  Above <- StdAbove
  Below <- StdBelow
  BadDefs <- TwoBad
INVARIANTS TypeOK HandlerInSync OnceCreated OwnedFresh Idempotent
PROPERTIES UserCodeKept StubsInDefinitionOrder OnceKept RejectedHarmless
CHECK_DEADLOCK FALSE
