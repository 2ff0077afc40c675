SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "swap"
 Gen = FALSE
INVARIANTS LenientWider
CHECK_DEADLOCK FALSE
