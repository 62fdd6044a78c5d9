SPECIFICATION Spec
VIEW View
CONSTRAINT Short
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
