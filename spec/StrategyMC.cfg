SPECIFICATION SpecCount
CONSTANTS
 W = 2
 Slack = ""
INVARIANTS Fits Recodes Collect
POSTCONDITION Spanned
CHECK_DEADLOCK FALSE
