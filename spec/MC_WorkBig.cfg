SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 8
  ASY = {FALSE, TRUE}
  OPS = {"work", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress WorkOnce WorkOneAtATime
PROPERTIES WorkDone
CHECK_DEADLOCK FALSE
