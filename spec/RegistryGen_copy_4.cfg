CONSTANTS W = 32
 Depth = 4
 MaxRegs = 3
 Alphabet = "copy"
 Emit = TRUE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
