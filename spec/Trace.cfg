CONSTANT W = 32
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
