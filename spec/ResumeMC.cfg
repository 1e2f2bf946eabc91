SPECIFICATION Spec
INVARIANT OnRightThread
PROPERTY NotAfterDown
CHECK_DEADLOCK FALSE
