SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "raw"
 Gen = FALSE
INVARIANTS FaultsNamed
CHECK_DEADLOCK FALSE
