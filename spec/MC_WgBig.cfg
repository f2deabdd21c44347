SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 1
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 10
  ASY = {FALSE}
  OPS = {"wgadd", "wgdone", "wgwait"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress WgZero
PROPERTIES WgOk OnTime
CHECK_DEADLOCK FALSE
