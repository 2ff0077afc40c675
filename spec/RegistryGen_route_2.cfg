CONSTANTS W = 32
 Depth = 2
 MaxRegs = 1
 Alphabet = "route"
 Emit = TRUE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
