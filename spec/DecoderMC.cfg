SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 3
 Few = FALSE
 Slips = ""
 Gen = FALSE
INVARIANTS Arrives Unwound Nested Inside Stops
CHECK_DEADLOCK FALSE
