SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 1
  NV = 1
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 9
  ASY = {FALSE}
  OPS = {"lock", "unlock", "cwait", "csig", "cbc"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress Exclusion NoIdleLock NoLeakedLock CondCount
PROPERTIES CondRelocks CondWakes
CHECK_DEADLOCK FALSE
