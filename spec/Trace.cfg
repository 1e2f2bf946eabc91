INIT TInit
NEXT TNext
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
