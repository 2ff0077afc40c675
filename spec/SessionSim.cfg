CONSTANTS SDepth = 40
 SEmit = TRUE
 SAlphabet = "all"
 Keeps = "nothing"
 Traps = 66
 Themes = 0
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE
