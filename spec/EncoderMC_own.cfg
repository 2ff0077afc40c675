SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "own"
 Slip = ""
 Gen = FALSE
INVARIANTS Emits Answers Unaltered Tidy
CHECK_DEADLOCK FALSE
