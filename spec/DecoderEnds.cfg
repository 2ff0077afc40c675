SPECIFICATION Spec
CONSTANTS
 W = 2
 MaxWords = 2
 Few = FALSE
 Slips = ""
 Gen = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
