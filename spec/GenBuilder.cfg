SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NeverContradictory
PROPERTY RefusalIsNeutral
CHECK_DEADLOCK FALSE
