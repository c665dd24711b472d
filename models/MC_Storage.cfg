SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 7
  Ops <- MCOps
INVARIANTS LoadedWasSaved CopiesConsistent NothingLost Snapshot RoundTrip Idempotent Emit
