SPECIFICATION GSpec
CONSTANT NP = 3
INVARIANTS AllMeansAll AnyMeansOne
PROPERTIES OutcomeFixed TakenOnce
CHECK_DEADLOCK FALSE
