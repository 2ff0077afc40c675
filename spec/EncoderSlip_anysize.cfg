SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "shape"
 Slip = "anysize"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
