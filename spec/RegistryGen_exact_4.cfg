CONSTANTS W = 32
 Depth = 4
 MaxRegs = 1
 Alphabet = "exact"
 Emit = TRUE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
