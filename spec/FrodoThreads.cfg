SPECIFICATION Spec
VIEW View
INVARIANT Tick
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
