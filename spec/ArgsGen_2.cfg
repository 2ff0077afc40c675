SPECIFICATION Spec
CONSTANTS
 W = 32
 ADepth = 2
 AEmit = TRUE
 Again = FALSE
 Wrong = ""
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
