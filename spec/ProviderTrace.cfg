CONSTANTS
  Size = 640
  Gen = "AES"
SPECIFICATION Spec
VIEW View
INVARIANT Tick
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
