SPECIFICATION Spec
CONSTANTS
 W = 32
 MaxTokens = 4
 Bend = "alias"
 Gen = FALSE
INVARIANTS NormalOnce
CHECK_DEADLOCK FALSE
