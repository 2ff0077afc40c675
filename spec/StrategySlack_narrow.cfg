SPECIFICATION SpecCount
CONSTANTS
 W = 2
 Slack = "narrow"
INVARIANTS Fits Recodes Collect
POSTCONDITION Spanned
CHECK_DEADLOCK FALSE
