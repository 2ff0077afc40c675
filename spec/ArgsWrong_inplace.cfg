SPECIFICATION Spec
CONSTANTS
 W = 2
 ADepth = 3
 AEmit = FALSE
 Again = FALSE
 Wrong = "inplace"
INVARIANTS Kept
CHECK_DEADLOCK FALSE
