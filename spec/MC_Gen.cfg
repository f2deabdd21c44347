SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 1
  CAPS <- Caps00
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 4
  ASY = {FALSE, TRUE}
  OPS = {"start", "gyield", "gnext", "cancel", "exit"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ExactlyOnce NothingInvented NotLost InOrder ClosedDrains
PROPERTIES GenCloses
CHECK_DEADLOCK FALSE
