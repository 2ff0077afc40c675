CONSTANTS W = 32
 FDepth = 3
 FLen = 7
 FNums = {0, 1, 3, 9}
 FEmit = TRUE
SPECIFICATION Spec
INVARIANTS FEmitted
CHECK_DEADLOCK FALSE
