SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps01
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 4
  ASY = {FALSE}
  OPS = {"send", "select", "tryselect", "close"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ExactlyOnce NothingInvented NotLost InOrder Capacity ClosedDrains SelectWaits
PROPERTIES NoSendAfterClose
CHECK_DEADLOCK FALSE
