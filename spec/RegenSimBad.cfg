SPECIFICATION SimSpec
CONSTANTS
  Names = {"A", "B", "C", "D", "E"}
  QTypes = {"T1", "T2", "T3"}
  RTypes = {"T1", "T2", "T3"}
  MaxBody = 9
  MaxDecl = 14
  Transports = {"all", "grpc", "nats"}
  Once = {"endpoints", "interrupt", "swrapper", "wrapper", "main", "cli"}
  CliFile = "cli"
  Owned = {"server", "pb", "grpcpb", "baron", "pb2", "grpcpb2", "baron2"}
  Splits = {"ab:a", "ab:b", "ba:a", "ba:b"}
  SvcOwned = {"server"}
  Other = {"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12", "o13"}
  Legacy = {"l1", "l2", "l3"}
  Above <- IsAbove
  Below <- IsBelow
  MaxBurst = 6
  MaxRuns = 5
  MaxRpcs = 4
  Damage = 24
  BadShare = 45
INVARIANTS TypeOK HandlerInSync OnceCreated OwnedFresh Idempotent
CHECK_DEADLOCK FALSE
