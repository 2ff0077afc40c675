CONSTANTS W = 32
 FDepth = 5
 FLen = 7
 FNums = {0, 3, 9}
 FEmit = FALSE
SPECIFICATION Spec
INVARIANTS PushedSum Restores Balanced
CHECK_DEADLOCK FALSE
