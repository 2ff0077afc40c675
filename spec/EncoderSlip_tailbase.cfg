SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "shape"
 Slip = "tailbase"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
