SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Disjoint
CHECK_DEADLOCK FALSE
