SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "shape"
 Slip = ""
 Gen = FALSE
INVARIANTS Emits Answers Unaltered Tidy
CHECK_DEADLOCK FALSE
