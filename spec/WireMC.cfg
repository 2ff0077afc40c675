SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "none"
 Gen = FALSE
INVARIANTS RoundTripOk WholeWords FaultsNamed Detects LenientWider NoPrefix NoSuffix Recodes
CHECK_DEADLOCK FALSE
