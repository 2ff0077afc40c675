SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "num"
 Slip = "wrap"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
