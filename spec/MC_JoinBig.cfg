SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 1
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 6
  ASY = {FALSE, TRUE}
  OPS = {"start", "join", "cancel", "exit"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress NoJoinDead
PROPERTIES JoinDone OnTime
CHECK_DEADLOCK FALSE
