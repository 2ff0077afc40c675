SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "short"
 Gen = FALSE
INVARIANTS NoPrefix
CHECK_DEADLOCK FALSE
