SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps
  NM = 1
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl1
  T = 1
  B = 6
  ASY = {FALSE}
  OPS = {"lock", "rdlock", "trylock", "tryrdlock", "unlock"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress Exclusion NoIdleLock NoLeakedLock
PROPERTIES Fifo OnTime
CHECK_DEADLOCK FALSE
