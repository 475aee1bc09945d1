CONSTANTS
  Threads = 2
  Lengths = {1, 3}
  Requests = 2
  Faults = 2
  Publish = "cas"
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Delivered FreshBytes NoStaleFd NoLeak Emit
CHECK_DEADLOCK FALSE
