SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2}
  START = 2
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 2
  DLS <- Dl1
  T = 1
  B = 5
  ASY = {FALSE, TRUE}
  OPS = {"sigwait", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress SignalsKept
CHECK_DEADLOCK FALSE
