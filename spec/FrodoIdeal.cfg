CONSTANTS
  Threads = 2
  MaxCalls = 3
  MaxFail = 1
  MaxEdit = 1
  Record = FALSE
  Depth = 0
SPECIFICATION Spec
INVARIANTS Agreement Rejection RejectionKey Isolation FailClosed FreshRnd Emit
CHECK_DEADLOCK FALSE
