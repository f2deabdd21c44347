SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 1
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 8
  ASY = {FALSE, TRUE}
  OPS = {"wgadd", "wgdone", "wgwait", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress WgZero CancelOnce
PROPERTIES WgOk CancelFirst
CHECK_DEADLOCK FALSE
