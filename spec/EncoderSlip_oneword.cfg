SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "own"
 Slip = "oneword"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
