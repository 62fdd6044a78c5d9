SPECIFICATION Spec
INVARIANT Conforms
POSTCONDITION Report
CHECK_DEADLOCK FALSE
