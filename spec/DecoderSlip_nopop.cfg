SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 4
 Few = TRUE
 Slips = "nopop"
 Gen = FALSE
INVARIANTS Unwound
CHECK_DEADLOCK FALSE
