SPECIFICATION Spec
CONSTANTS MAXP = 3 MAXLEN = 14
INVARIANTS InOrder NeverBad AllTaken
CHECK_DEADLOCK FALSE
