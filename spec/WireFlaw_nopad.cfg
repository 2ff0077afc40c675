SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "nopad"
 Gen = FALSE
INVARIANTS WholeWords
CHECK_DEADLOCK FALSE
