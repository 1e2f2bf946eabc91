SPECIFICATION Spec
CONSTANTS
  Asp = {"data", "life"}
  NK = 2
  NT = 1
  SMax = 2
  CMax = 1
  Raw = {2}
  Stops = {"S"}
INVARIANTS OneEach InOrder Ends
CHECK_DEADLOCK FALSE
