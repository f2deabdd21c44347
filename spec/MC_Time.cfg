SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2, c3}
  START = 3
  CAPS <- Caps0
  NM = 1
  NV = 0
  NW = 0
  NSG = 0
  DLS <- Dl12
  T = 3
  B = 4
  ASY = {FALSE}
  OPS = {"sleep", "suspend", "lock", "unlock", "recv"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress
PROPERTIES OnTime
CHECK_DEADLOCK FALSE
