CONSTANTS SDepth = 1000
 SEmit = FALSE
 SAlphabet = "all"
 Keeps = "flag"
 Traps = 4
 Themes = 4
SPECIFICATION Spec
INVARIANTS NoMemory
VIEW State
CHECK_DEADLOCK FALSE
