SPECIFICATION Spec
CONSTANTS
 W = 32
 Depth = 2
 Tampers = 1
 Flaw = "none"
 Gen = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
