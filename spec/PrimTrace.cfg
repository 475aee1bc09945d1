CONSTANTS
  Sponge = {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"}
  Quad = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"}
  Sched = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
