CONSTANTS W = 32
 Depth = 100
 MaxRegs = 1
 Alphabet = "exact"
 Emit = FALSE
 Clearing = "all"
SPECIFICATION Spec
INVARIANTS UniquePredicates UniqueLabels UndoWorks
PROPERTIES Exactness
VIEW StView
CHECK_DEADLOCK FALSE
