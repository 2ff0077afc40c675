CONSTANTS SDepth = 2
 SEmit = TRUE
 SAlphabet = "traps"
 Keeps = "nothing"
 Traps = 66
 Themes = 0
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE
