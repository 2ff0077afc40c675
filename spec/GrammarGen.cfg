SPECIFICATION Spec
CONSTANTS
 W = 32
 MaxTokens = 20
 Bend = ""
 Gen = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
