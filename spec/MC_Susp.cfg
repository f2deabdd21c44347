SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 5
  ASY = {FALSE}
  OPS = {"suspend", "resume", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress CancelOnce
PROPERTIES ResumeWakes ResumeOk OnTime
CHECK_DEADLOCK FALSE
