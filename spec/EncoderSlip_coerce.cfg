SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "num"
 Slip = "coerce"
 Gen = FALSE
INVARIANTS Emits
CHECK_DEADLOCK FALSE
