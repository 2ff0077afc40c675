SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 4
 Few = TRUE
 Slips = "noreturn"
 Gen = FALSE
INVARIANTS Arrives
CHECK_DEADLOCK FALSE
