SPECIFICATION Spec
VIEW View
INVARIANT Good
PROPERTY Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
