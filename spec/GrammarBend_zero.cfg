SPECIFICATION Spec
CONSTANTS
 W = 32
 MaxTokens = 4
 Bend = "zero"
 Gen = FALSE
INVARIANTS SameLanguage
CHECK_DEADLOCK FALSE
