SPECIFICATION Spec
CONSTANTS
 W = 32
 BDepth = 6
 BEmit = FALSE
 BRich = TRUE
 Botch = ""
INVARIANTS Named Flagged OneServes
VIEW View
CHECK_DEADLOCK FALSE
