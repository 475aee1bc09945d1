CONSTANT
  SizesUsed = {640, 976, 1344}
SPECIFICATION Spec
INVARIANTS Exact Shape Rounds Encodes Packs
VIEW View
CHECK_DEADLOCK FALSE
