CONSTANTS W = 32
 FDepth = 25
 FLen = 40
 FNums = {0, 1, 2, 5, 17, 32, 64}
 FEmit = TRUE
SPECIFICATION Spec
INVARIANTS FEmitted
CHECK_DEADLOCK FALSE
