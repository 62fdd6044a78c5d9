SPECIFICATION Spec
INVARIANT Conforms
VIEW View
POSTCONDITION Report
CHECK_DEADLOCK FALSE
