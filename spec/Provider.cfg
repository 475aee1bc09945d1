SPECIFICATION Spec
CONSTANTS
  Ops = {"keygen", "encaps", "decaps"}
  Uses = 3
  MaxCalls = 3
  MaxFault = 2
  Careless = FALSE
  Record = FALSE
INVARIANTS NothingMissing NothingHeld Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
