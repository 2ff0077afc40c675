SPECIFICATION Spec
CONSTANTS
 W = 32
 MaxWords = 6
 Few = FALSE
 Slips = ""
 Gen = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
