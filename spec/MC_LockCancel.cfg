SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 1
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 6
  ASY = {FALSE}
  OPS = {"lock", "rdlock", "unlock", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress Exclusion NoIdleLock NoLeakedLock CancelOnce
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
