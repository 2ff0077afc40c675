SPECIFICATION Spec
CONSTANTS
 W = 2
 ADepth = 3
 AEmit = FALSE
 Again = FALSE
 Wrong = "alias"
INVARIANTS Stands
CHECK_DEADLOCK FALSE
