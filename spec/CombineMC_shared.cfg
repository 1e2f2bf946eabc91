SPECIFICATION SSpec
CONSTANT NP = 1
INVARIANT SameForAll
PROPERTY OutcomeFixed
CHECK_DEADLOCK FALSE
