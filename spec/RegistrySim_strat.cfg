CONSTANTS W = 32
 Depth = 14
 MaxRegs = 1
 Alphabet = "strat"
 Emit = TRUE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
