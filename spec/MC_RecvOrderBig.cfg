SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps0
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 8
  ASY = {FALSE}
  OPS = {"send", "recv", "bcast", "order"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ExactlyOnce
PROPERTIES RecvFifo
CHECK_DEADLOCK FALSE
