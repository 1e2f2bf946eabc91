SPECIFICATION Spec
INVARIANT AtMostOncePerMake
PROPERTY RunsBeforeOutcome
CONSTRAINT Bnd
CHECK_DEADLOCK FALSE
