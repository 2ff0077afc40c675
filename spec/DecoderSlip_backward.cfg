SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 4
 Few = TRUE
 Slips = "backward"
 Gen = FALSE
INVARIANTS Arrives
CHECK_DEADLOCK FALSE
