SPECIFICATION SpecCount
CONSTANTS
 W = 2
 Slack = "surrogates"
INVARIANTS Fits Recodes Collect
POSTCONDITION Spanned
CHECK_DEADLOCK FALSE
