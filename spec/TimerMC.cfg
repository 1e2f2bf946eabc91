SPECIFICATION Spec
CONSTANT HORIZON = 3000
INVARIANTS NeverEarly OneShotOnce Bounded QuietAfterCancel OnOwnThread LateNeverFires
CHECK_DEADLOCK FALSE
