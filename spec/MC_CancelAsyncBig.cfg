SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 7
  ASY = {TRUE}
  OPS = {"cancel", "sleep", "suspend", "setcs"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress CancelOnce NoJoinDead
CHECK_DEADLOCK FALSE
