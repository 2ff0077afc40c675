SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "headlen"
 Gen = FALSE
INVARIANTS RoundTripOk
CHECK_DEADLOCK FALSE
