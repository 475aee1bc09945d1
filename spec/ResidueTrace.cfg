CONSTANTS
  Size = 640
  Gen = "AES"
  Runs = 6
SPECIFICATION Spec
VIEW View
INVARIANT Tick
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
