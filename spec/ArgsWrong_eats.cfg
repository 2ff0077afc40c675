SPECIFICATION Spec
CONSTANTS
 W = 2
 ADepth = 3
 AEmit = FALSE
 Again = FALSE
 Wrong = "eats"
INVARIANTS Kept
CHECK_DEADLOCK FALSE
