SPECIFICATION Spec
CONSTANTS
 W = 32
 Set = "shape"
 Slip = ""
 Gen = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
