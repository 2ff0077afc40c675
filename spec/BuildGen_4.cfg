SPECIFICATION Spec
CONSTANTS
 W = 32
 BDepth = 4
 BEmit = TRUE
 BRich = FALSE
 Botch = ""
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
