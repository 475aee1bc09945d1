CONSTANTS
  Size = 640
  Gen = "AES"
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
