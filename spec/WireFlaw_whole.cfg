SPECIFICATION Spec
CONSTANTS
 W = 2
 Depth = 1
 Tampers = 1
 Flaw = "whole"
 Gen = FALSE
INVARIANTS NoSuffix
CHECK_DEADLOCK FALSE
