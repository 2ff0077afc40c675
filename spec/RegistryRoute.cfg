CONSTANTS W = 32
 Depth = 4
 MaxRegs = 1
 Alphabet = "route"
 Emit = FALSE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS UniquePredicates UniqueLabels Coherent
VIEW StCacheView
CHECK_DEADLOCK FALSE
