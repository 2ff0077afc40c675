CONSTANTS W = 32
 Depth = 4
 MaxRegs = 1
 Alphabet = "route"
 Emit = FALSE
 Clearing = "some"
SPECIFICATION Spec
INVARIANTS Coherent
VIEW StCacheView
CHECK_DEADLOCK FALSE
