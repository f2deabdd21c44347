SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps0
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 8
  ASY = {FALSE}
  OPS = {"send", "recv", "tryrecv", "close"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ExactlyOnce NothingInvented NotLost InOrder Capacity ClosedDrains
PROPERTIES NoSendAfterClose OnTime
CHECK_DEADLOCK FALSE
