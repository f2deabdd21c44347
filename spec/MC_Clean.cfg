SPECIFICATION Spec
CONSTANTS
  CO = {c1, c2}
  START = 2
  CAPS <- Caps
  NM = 0
  NV = 0
  NW = 0
  NSG = 0
  DLS <- DlInf
  T = 0
  B = 5
  ASY = {FALSE, TRUE}
  OPS = {"cancel", "suspend", "exit", "push"}
SYMMETRY Alike
INVARIANTS Consistent NeverWaits Progress ReverseOrder AllRun NoneWithout
CHECK_DEADLOCK FALSE
