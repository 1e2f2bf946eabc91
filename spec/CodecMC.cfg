SPECIFICATION Spec
CONSTANTS MAXP = 2 MAXID = 65535 MAXLEN = 2
INVARIANTS InOrder NeverBad AllTaken
CHECK_DEADLOCK FALSE
