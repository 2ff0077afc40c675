SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 4
 Few = TRUE
 Slips = "running"
 Gen = FALSE
INVARIANTS Arrives
CHECK_DEADLOCK FALSE
