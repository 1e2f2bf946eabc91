SPECIFICATION Spec
CONSTANTS
  s1 = s1
  s2 = s2
  t1 = t1
  t2 = t2
  t3 = t3
  NIn = 2
  NOut = 2
  Senders = {s1}
  Tasks = {t1, t2, t3}
  Bug = "outlate"
INVARIANTS OneAtATime NothingLeft
CHECK_DEADLOCK FALSE
