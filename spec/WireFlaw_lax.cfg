SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "lax"
 Gen = FALSE
INVARIANTS Detects
CHECK_DEADLOCK FALSE
