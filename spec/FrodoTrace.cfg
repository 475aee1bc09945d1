CONSTANTS
  Size = 640
  Gen = "AES"
  Judge = "conform"
SPECIFICATION Spec
VIEW View
INVARIANT Tick
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
