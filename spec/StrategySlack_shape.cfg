SPECIFICATION SpecCount
CONSTANTS
 W = 2
 Slack = "shape"
INVARIANTS Fits Recodes Collect
POSTCONDITION Spanned
CHECK_DEADLOCK FALSE
