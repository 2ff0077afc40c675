SPECIFICATION Spec
CONSTANTS
 W = 32
 ADepth = 12
 AEmit = TRUE
 Again = TRUE
 Wrong = ""
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
