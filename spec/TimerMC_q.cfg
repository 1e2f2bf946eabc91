SPECIFICATION Spec
CONSTANT HORIZON = 2000
INVARIANTS NeverEarly OneShotOnce Bounded QuietAfterCancel OnOwnThread LateNeverFires
CHECK_DEADLOCK FALSE
