SPECIFICATION Spec
PROPERTY Conforms
VIEW View
CHECK_DEADLOCK FALSE
