SPECIFICATION Spec
CONSTANTS
 W = 2
 ADepth = 4
 AEmit = FALSE
 Again = FALSE
 Wrong = ""
INVARIANTS Kept Stands
CHECK_DEADLOCK FALSE
