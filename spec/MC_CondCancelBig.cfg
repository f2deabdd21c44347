SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 1
  NV = 1
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 8
  ASY = {FALSE}
  OPS = {"lock", "unlock", "cwait", "csig", "cancel"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress Exclusion NoIdleLock NoLeakedLock CondCount CancelOnce
PROPERTIES CondRelocks CondWakes CancelFirst
CHECK_DEADLOCK FALSE
