CONSTANTS SDepth = 48
 SEmit = TRUE
 SAlphabet = "themes"
 Keeps = "nothing"
 Traps = 0
 Themes = 48
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE
