SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps01
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 6
  ASY = {FALSE}
  OPS = {"bcast", "recv", "select", "send", "close"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress BcastOnce ExactlyOnce NothingInvented Capacity
PROPERTIES BcastCount
CHECK_DEADLOCK FALSE
