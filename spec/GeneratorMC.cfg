SPECIFICATION Spec
INVARIANT OnDemand
PROPERTIES InOrder ReleasedOnce
CHECK_DEADLOCK FALSE
