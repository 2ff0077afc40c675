SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "num"
 Slip = "round"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
