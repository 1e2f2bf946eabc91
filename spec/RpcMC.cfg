SPECIFICATION Spec
CONSTANTS
  N = 2
  Conns = {1}
INVARIANTS OneRun OneAtATime InOrder OnlyAsked
CHECK_DEADLOCK FALSE
