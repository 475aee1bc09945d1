CONSTANTS
  Keys = 16
  Messages = {0, 1, 27, 228, 255}
  Bits = 1
  ToyGen = "SHAKE"
SPECIFICATION Spec
INVARIANTS Formats Decodes Agreement Acceptance Met
POSTCONDITION Report
CHECK_DEADLOCK FALSE
