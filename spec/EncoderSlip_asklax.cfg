SPECIFICATION Spec
CONSTANTS
 W = 2
 Set = "shape"
 Slip = "asklax"
 Gen = FALSE
INVARIANTS Answers
CHECK_DEADLOCK FALSE
