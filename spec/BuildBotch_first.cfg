SPECIFICATION Spec
CONSTANTS
 W = 32
 BDepth = 4
 BEmit = FALSE
 BRich = FALSE
 Botch = "first"
INVARIANTS Named Flagged OneServes
CHECK_DEADLOCK FALSE
