SPECIFICATION Spec
CONSTANTS
 W = 32
 BDepth = 7
 BEmit = TRUE
 BRich = TRUE
 Botch = ""
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
