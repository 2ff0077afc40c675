SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "shape"
 Slip = "pkpad"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
