SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "own"
 Slip = "flat"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
