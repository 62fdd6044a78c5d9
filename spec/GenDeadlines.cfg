SPECIFICATION Spec
VIEW View
INVARIANT InTime
ACTION_CONSTRAINT Emit Stop
CHECK_DEADLOCK FALSE
