SPECIFICATION Spec
CONSTANTS
 W = 32
 BDepth = 4
 BEmit = FALSE
 BRich = FALSE
 Botch = "inner"
INVARIANTS Named Flagged OneServes
CHECK_DEADLOCK FALSE
