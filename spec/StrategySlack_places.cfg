SPECIFICATION SpecCount
CONSTANTS
 W = 2
 Slack = "places"
INVARIANTS Fits Recodes Collect
POSTCONDITION Spanned
CHECK_DEADLOCK FALSE
