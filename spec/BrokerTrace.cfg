SPECIFICATION Spec
INVARIANT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
