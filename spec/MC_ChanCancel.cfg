SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps1
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 5
  ASY = {FALSE, TRUE}
  OPS = {"send", "recv", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ExactlyOnce NothingInvented NotLost InOrder Capacity CancelOnce
PROPERTIES CancelFirst
CHECK_DEADLOCK FALSE
