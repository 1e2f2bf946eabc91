SPECIFICATION Spec
CONSTANTS
  Asp = {"data", "life"}
  NK = 2
  NT = 1
  SMax = 1
  CMax = 2
  Raw = {}
  Stops = {}
INVARIANTS OneEach InOrder Ends
CHECK_DEADLOCK FALSE
