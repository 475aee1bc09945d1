CONSTANTS
  Threads = 2
  Lengths = {1, 2}
  Requests = 1
  Faults = 2
  Publish = "cas"
  Record = FALSE
SPECIFICATION Live
INVARIANTS Delivered FreshBytes NoStaleFd NoLeak
PROPERTY Answered
CHECK_DEADLOCK FALSE
