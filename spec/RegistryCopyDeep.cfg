CONSTANTS W = 32
 Depth = 6
 MaxRegs = 3
 Alphabet = "copy"
 Emit = FALSE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS UniquePredicates UniqueLabels Coherent
PROPERTIES Separate Exactness
VIEW StCacheView
CHECK_DEADLOCK FALSE
